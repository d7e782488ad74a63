From d4e563e8af91c247a32c00ea3acdb5ddb649711a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:40 +0000
Subject: [PATCH 01/27] fix: IsSorted must not access the collection after it
 has returned

IsSorted used speculative.And, which returns as soon as the first range is found
to be unsorted, while other goroutines still call data.Less. Sort then swaps
elements concurrently with these calls, and users of IsSorted may do the same.
---
 psort/sort.go | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/psort/sort.go b/psort/sort.go
index 99d21de..72d50bf 100644
--- a/psort/sort.go
+++ b/psort/sort.go
@@ -5,7 +5,7 @@ import (
 	"sort"
 	"sync/atomic"
 
-	"github.com/intel/forGoParallel/speculative"
+	"github.com/intel/forGoParallel/parallel"
 )
 
 // SequentialSorter is a type, typically a collection, that can be sequentially
@@ -34,7 +34,6 @@ func IsSorted(data sort.Interface) bool {
 		}
 	}
 	var done int32
-	defer atomic.StoreInt32(&done, 1)
 	var pTest func(int, int) bool
 	pTest = func(index, size int) bool {
 		if size < qsortGrainSize {
@@ -44,13 +43,16 @@ func IsSorted(data sort.Interface) bool {
 					return false
 				}
 				if data.Less(j, j-1) {
+					atomic.StoreInt32(&done, 1)
 					return false
 				}
 			}
 			return true
 		}
 		half := size / 2
-		result := speculative.And(
+		// The callers of IsSorted may modify data as soon as it returns, so all
+		// goroutines that access data must have terminated by then.
+		result := parallel.And(
 			func() bool { return pTest(index, half) },
 			func() bool { return pTest(index+half, size-half) },
 		)
-- 
2.43.0


From e0d45c184777051cf37ecd13467a6fe676157c45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:56 +0000
Subject: [PATCH 02/27] fix: Float64Slice must order NaN values like its
 SequentialSort method

SequentialSort orders NaN values first, but Less did not, so parallel sorting
merged or partitioned ranges with an inconsistent order and returned slices that
were not sorted when they contained NaN values.
---
 psort/sort.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/psort/sort.go b/psort/sort.go
index 72d50bf..210d302 100644
--- a/psort/sort.go
+++ b/psort/sort.go
@@ -115,8 +115,10 @@ func (s Float64Slice) Len() int {
 	return len(s)
 }
 
+// Less orders not-a-number values before all other values, like
+// sort.Float64Slice, which is used by SequentialSort.
 func (s Float64Slice) Less(i, j int) bool {
-	return s[i] < s[j]
+	return sort.Float64Slice(s).Less(i, j)
 }
 
 func (s Float64Slice) Swap(i, j int) {
-- 
2.43.0


From 09e85cca6f2dffceb8039c82f186051a0897e10d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:38 +0000
Subject: [PATCH 03/27] fix: gsync.Map must not panic for nil keys and values
 of interface types

Load, LoadAndDelete, LoadOrStore, Swap, and Range panicked when K or V are
interface types and a nil key or value was stored in the map before.
---
 gsync/sync.go | 23 ++++++++++++-----------
 1 file changed, 12 insertions(+), 11 deletions(-)

diff --git a/gsync/sync.go b/gsync/sync.go
index 34c6ad3..dc094db 100755
--- a/gsync/sync.go
+++ b/gsync/sync.go
@@ -6,6 +6,10 @@ import (
 )
 
 // Map is a type-safe version of sync.Map.
+//
+// If K or V are interface types, nil keys or values are nil interfaces in the
+// underlying sync.Map, for which type assertions fail, but the zero values that
+// result from such failures are the correct keys or values.
 type Map[K comparable, V any] sync.Map
 
 func (m *Map[K, V]) CompareAndDelete(key K, value V) (deleted bool) {
@@ -22,28 +26,27 @@ func (m *Map[K, V]) Delete(key K) {
 
 func (m *Map[K, V]) Load(key K) (value V, ok bool) {
 	v, ok := (*sync.Map)(m).Load(key)
-	if ok {
-		return v.(V), true
-	}
+	value, _ = v.(V)
 	return
 }
 
 func (m *Map[K, V]) LoadAndDelete(key K) (value V, loaded bool) {
 	v, loaded := (*sync.Map)(m).LoadAndDelete(key)
-	if loaded {
-		return v.(V), true
-	}
+	value, _ = v.(V)
 	return
 }
 
 func (m *Map[K, V]) LoadOrStore(key K, value V) (actual V, loaded bool) {
 	v, loaded := (*sync.Map)(m).LoadOrStore(key, value)
-	return v.(V), loaded
+	actual, _ = v.(V)
+	return
 }
 
 func (m *Map[K, V]) Range(f func(K, V) bool) {
 	(*sync.Map)(m).Range(func(k any, v any) bool {
-		return f(k.(K), v.(V))
+		key, _ := k.(K)
+		value, _ := v.(V)
+		return f(key, value)
 	})
 }
 
@@ -53,9 +56,7 @@ func (m *Map[K, V]) Store(key K, value V) {
 
 func (m *Map[K, V]) Swap(key K, value V) (previous V, loaded bool) {
 	prev, loaded := (*sync.Map)(m).Swap(key, value)
-	if loaded {
-		previous = prev.(V)
-	}
+	previous, _ = prev.(V)
 	return
 }
 
-- 
2.43.0


From e7b604e0afd440069d5279b5d8dc5a79b16803e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:38 +0000
Subject: [PATCH 04/27] fix: gsync.Pool must handle a nil New function and nil
 objects like sync.Pool

Get panicked for an empty pool without a New function, and Put(nil) added a nil
pointer to the pool which Get then returned although New was set.
---
 gsync/sync.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/gsync/sync.go b/gsync/sync.go
index dc094db..7bd1b09 100755
--- a/gsync/sync.go
+++ b/gsync/sync.go
@@ -72,6 +72,9 @@ func (p *Pool[T]) getSyncPool() *sync.Pool {
 	}
 	result := &sync.Pool{
 		New: func() any {
+			if p.New == nil {
+				return (*T)(nil)
+			}
 			return p.New()
 		},
 	}
@@ -86,5 +89,8 @@ func (p *Pool[T]) Get() *T {
 }
 
 func (p *Pool[T]) Put(x *T) {
+	if x == nil {
+		return
+	}
 	p.getSyncPool().Put(x)
 }
-- 
2.43.0


From 230abb8e9adc051ec46221b821fb51c2e39a9210 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:14 +0000
Subject: [PATCH 05/27] fix: cancelation must not be missed by waiting strictly
 ordered nodes

Feed checks for cancelation and then waits on the condition variable while it
holds the lock, but the broadcast on cancelation did not acquire the lock, so
it could happen in between these two steps. Feed then waited forever, and
the pipeline never ended.
---
 pipeline/lparnode.go      | 2 ++
 pipeline/strictordnode.go | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/pipeline/lparnode.go b/pipeline/lparnode.go
index dd672e4..c3c5340 100644
--- a/pipeline/lparnode.go
+++ b/pipeline/lparnode.go
@@ -52,7 +52,9 @@ func (node *lparnode[T]) Begin(p *Pipeline[T], index int, dataSize *int) (keep b
 					select {
 					case <-p.ctx.Done():
 						if node.ordered {
+							node.cond.L.Lock()
 							node.cond.Broadcast()
+							node.cond.L.Unlock()
 						}
 						return
 					case batch, ok := <-node.channel:
diff --git a/pipeline/strictordnode.go b/pipeline/strictordnode.go
index e7d1f2c..4c4c200 100644
--- a/pipeline/strictordnode.go
+++ b/pipeline/strictordnode.go
@@ -50,7 +50,9 @@ func (node *strictordnode[T]) Begin(p *Pipeline[T], index int, dataSize *int) (k
 			for {
 				select {
 				case <-p.ctx.Done():
+					node.cond.L.Lock()
 					node.cond.Broadcast()
+					node.cond.L.Unlock()
 					return
 				case batch, ok := <-node.channel:
 					if !ok {
-- 
2.43.0


From 7c7b948f513abf0a89b553c2ebe0289f5f44bdbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:14 +0000
Subject: [PATCH 06/27] fix: nodes before a StrictOrd node must be ordered
 before they begin

Begin already starts the goroutines of a node according to its kind, so changing
the kind of a sequential or limited parallel node afterwards had no effect, or
only affected some of the batches. Pipelines with such nodes before a StrictOrd
node could deadlock or panic.
---
 pipeline/pipeline.go | 26 +++++++++++++-------------
 1 file changed, 13 insertions(+), 13 deletions(-)

diff --git a/pipeline/pipeline.go b/pipeline/pipeline.go
index c1a56ce..07103dd 100644
--- a/pipeline/pipeline.go
+++ b/pipeline/pipeline.go
@@ -292,6 +292,19 @@ func (p *Pipeline[T]) defaultRunWithContext(ctx context.Context, cancel context.
 		p.notifiers[i] = nil
 	}
 	dataSize := p.source.Prepare(p.ctx)
+	for index := len(p.nodes) - 1; index >= 0; index-- {
+		if p.nodes[index].StrictOrd() {
+			for index = index - 1; index >= 0; index-- {
+				switch node := p.nodes[index].(type) {
+				case *seqnode[T]:
+					node.kind = Ordered
+				case *lparnode[T]:
+					node.makeOrdered()
+				}
+			}
+			break
+		}
+	}
 	filteredSize := dataSize
 	for index := 0; index < len(p.nodes); {
 		if p.nodes[index].Begin(p, index, &filteredSize) {
@@ -311,19 +324,6 @@ func (p *Pipeline[T]) defaultRunWithContext(ctx context.Context, cancel context.
 				index++
 			}
 		}
-		for index := len(p.nodes) - 1; index >= 0; index-- {
-			if p.nodes[index].StrictOrd() {
-				for index = index - 1; index >= 0; index-- {
-					switch node := p.nodes[index].(type) {
-					case *seqnode[T]:
-						node.kind = Ordered
-					case *lparnode[T]:
-						node.makeOrdered()
-					}
-				}
-				break
-			}
-		}
 		if dataSize < 0 {
 			p.finalizeVariableBatchSize()
 			for seqNo, batchSize := 0, p.batchInc; p.source.Fetch(batchSize) > 0; seqNo, batchSize = seqNo+1, p.nextBatchSize(batchSize) {
-- 
2.43.0


From bddb3b852f24d8306e60abd2e2efc499f594b4e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:15 +0000
Subject: [PATCH 07/27] fix: nodes must forward batches with the index received
 by Feed

Nodes may be removed from the pipeline or merged after Begin, so the index
received by Begin may be different from the index received by Feed. Forwarding
batches with the former skipped nodes, or fed them twice.
---
 pipeline/lparnode.go      | 10 +++++-----
 pipeline/seqnode.go       | 13 +++++++------
 pipeline/strictordnode.go |  8 ++++----
 3 files changed, 16 insertions(+), 15 deletions(-)

diff --git a/pipeline/lparnode.go b/pipeline/lparnode.go
index c3c5340..23e42c9 100644
--- a/pipeline/lparnode.go
+++ b/pipeline/lparnode.go
@@ -39,7 +39,7 @@ func (node *lparnode[T]) TryMerge(next Node[T]) bool {
 }
 
 // Implements the Begin method of the Node interface.
-func (node *lparnode[T]) Begin(p *Pipeline[T], index int, dataSize *int) (keep bool) {
+func (node *lparnode[T]) Begin(p *Pipeline[T], _ int, dataSize *int) (keep bool) {
 	node.receivers, node.finalizers = ComposeFilters(p, Parallel, dataSize, node.filters)
 	node.filters = nil
 	if keep = (len(node.receivers) > 0) || (len(node.finalizers) > 0); keep {
@@ -70,7 +70,7 @@ func (node *lparnode[T]) Begin(p *Pipeline[T], index int, dataSize *int) (keep b
 							node.cond.L.Unlock()
 							node.cond.Broadcast()
 						}
-						feed(p, node.receivers, index, batch.seqNo, batch.data)
+						feed(p, node.receivers, batch.index, batch.seqNo, batch.data)
 					}
 				}
 			}()
@@ -84,7 +84,7 @@ func (node *lparnode[T]) StrictOrd() bool {
 }
 
 // Implements the Feed method of the Node interface.
-func (node *lparnode[T]) Feed(p *Pipeline[T], _ int, seqNo int, data T) {
+func (node *lparnode[T]) Feed(p *Pipeline[T], index int, seqNo int, data T) {
 	if node.ordered {
 		node.cond.L.Lock()
 		defer node.cond.L.Unlock()
@@ -93,7 +93,7 @@ func (node *lparnode[T]) Feed(p *Pipeline[T], _ int, seqNo int, data T) {
 				select {
 				case <-p.ctx.Done():
 					return
-				case node.channel <- dataBatch[T]{seqNo, data}:
+				case node.channel <- dataBatch[T]{index, seqNo, data}:
 					return
 				}
 			}
@@ -108,7 +108,7 @@ func (node *lparnode[T]) Feed(p *Pipeline[T], _ int, seqNo int, data T) {
 	select {
 	case <-p.ctx.Done():
 		return
-	case node.channel <- dataBatch[T]{seqNo, data}:
+	case node.channel <- dataBatch[T]{index, seqNo, data}:
 		return
 	}
 }
diff --git a/pipeline/seqnode.go b/pipeline/seqnode.go
index 7e5d3e4..1ed3d1e 100644
--- a/pipeline/seqnode.go
+++ b/pipeline/seqnode.go
@@ -6,6 +6,7 @@ import (
 
 type (
 	dataBatch[T any] struct {
+		index int
 		seqNo int
 		data  T
 	}
@@ -45,7 +46,7 @@ func (node *seqnode[T]) TryMerge(next Node[T]) bool {
 }
 
 // Implements the Begin method of the Node interface.
-func (node *seqnode[T]) Begin(p *Pipeline[T], index int, dataSize *int) (keep bool) {
+func (node *seqnode[T]) Begin(p *Pipeline[T], _ int, dataSize *int) (keep bool) {
 	node.receivers, node.finalizers = ComposeFilters(p, node.kind, dataSize, node.filters)
 	node.filters = nil
 	if keep = (len(node.receivers) > 0) || (len(node.finalizers) > 0); keep {
@@ -63,7 +64,7 @@ func (node *seqnode[T]) Begin(p *Pipeline[T], index int, dataSize *int) (keep bo
 						if !ok {
 							return
 						}
-						feed(p, node.receivers, index, batch.seqNo, batch.data)
+						feed(p, node.receivers, batch.index, batch.seqNo, batch.data)
 					}
 				}
 			}()
@@ -85,7 +86,7 @@ func (node *seqnode[T]) Begin(p *Pipeline[T], index int, dataSize *int) (keep bo
 						case batch.seqNo > run:
 							stash[batch.seqNo] = batch.data
 						default:
-							feed(p, node.receivers, index, batch.seqNo, batch.data)
+							feed(p, node.receivers, batch.index, batch.seqNo, batch.data)
 						checkStash:
 							for {
 								select {
@@ -98,7 +99,7 @@ func (node *seqnode[T]) Begin(p *Pipeline[T], index int, dataSize *int) (keep bo
 										break checkStash
 									}
 									delete(stash, run)
-									feed(p, node.receivers, index, run, data)
+									feed(p, node.receivers, batch.index, run, data)
 								}
 							}
 						}
@@ -117,11 +118,11 @@ func (node *seqnode[T]) StrictOrd() bool {
 }
 
 // Implements the Feed method of the Node interface.
-func (node *seqnode[T]) Feed(p *Pipeline[T], _ int, seqNo int, data T) {
+func (node *seqnode[T]) Feed(p *Pipeline[T], index int, seqNo int, data T) {
 	select {
 	case <-p.ctx.Done():
 		return
-	case node.channel <- dataBatch[T]{seqNo, data}:
+	case node.channel <- dataBatch[T]{index, seqNo, data}:
 		return
 	}
 }
diff --git a/pipeline/strictordnode.go b/pipeline/strictordnode.go
index 4c4c200..fe9d1e0 100644
--- a/pipeline/strictordnode.go
+++ b/pipeline/strictordnode.go
@@ -38,7 +38,7 @@ func (node *strictordnode[T]) TryMerge(next Node[T]) bool {
 }
 
 // Implements the Begin method of the Node interface.
-func (node *strictordnode[T]) Begin(p *Pipeline[T], index int, dataSize *int) (keep bool) {
+func (node *strictordnode[T]) Begin(p *Pipeline[T], _ int, dataSize *int) (keep bool) {
 	node.receivers, node.finalizers = ComposeFilters(p, Ordered, dataSize, node.filters)
 	node.filters = nil
 	if keep = (len(node.receivers) > 0) || (len(node.finalizers) > 0); keep {
@@ -65,7 +65,7 @@ func (node *strictordnode[T]) Begin(p *Pipeline[T], index int, dataSize *int) (k
 					node.run++
 					node.cond.L.Unlock()
 					node.cond.Broadcast()
-					feed(p, node.receivers, index, batch.seqNo, batch.data)
+					feed(p, node.receivers, batch.index, batch.seqNo, batch.data)
 				}
 			}
 		}()
@@ -78,7 +78,7 @@ func (node *strictordnode[T]) StrictOrd() bool {
 }
 
 // Implements the Feed method of the Node interface.
-func (node *strictordnode[T]) Feed(p *Pipeline[T], _ int, seqNo int, data T) {
+func (node *strictordnode[T]) Feed(p *Pipeline[T], index int, seqNo int, data T) {
 	node.cond.L.Lock()
 	defer node.cond.L.Unlock()
 	for {
@@ -86,7 +86,7 @@ func (node *strictordnode[T]) Feed(p *Pipeline[T], _ int, seqNo int, data T) {
 			select {
 			case <-p.ctx.Done():
 				return
-			case node.channel <- dataBatch[T]{seqNo, data}:
+			case node.channel <- dataBatch[T]{index, seqNo, data}:
 				return
 			}
 		}
-- 
2.43.0


From 936145041020f9b7bea261c62fa2d48c4143954e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:15 +0000
Subject: [PATCH 08/27] fix: nodes must not be merged after their goroutines
 have been started

When a node in between is dropped by Begin, two neighboring nodes could be merged
although both had already started their goroutines. The goroutines of the second
node then waited for batches that never arrive, and for an End that is never
called, until the pipeline is canceled.
---
 pipeline/lparnode.go      | 2 +-
 pipeline/strictordnode.go | 6 ++++++
 2 files changed, 7 insertions(+), 1 deletion(-)

diff --git a/pipeline/lparnode.go b/pipeline/lparnode.go
index 23e42c9..5d8d052 100644
--- a/pipeline/lparnode.go
+++ b/pipeline/lparnode.go
@@ -29,7 +29,7 @@ func (node *lparnode[T]) makeOrdered() {
 
 // Implements the TryMerge method of the Node interface.
 func (node *lparnode[T]) TryMerge(next Node[T]) bool {
-	if nxt, merge := next.(*lparnode[T]); merge && (nxt.limit == node.limit) {
+	if nxt, merge := next.(*lparnode[T]); merge && (nxt.limit == node.limit) && (len(nxt.filters) > 0) {
 		node.filters = append(node.filters, nxt.filters...)
 		node.receivers = append(node.receivers, nxt.receivers...)
 		node.finalizers = append(node.finalizers, nxt.finalizers...)
diff --git a/pipeline/strictordnode.go b/pipeline/strictordnode.go
index fe9d1e0..8f8de71 100644
--- a/pipeline/strictordnode.go
+++ b/pipeline/strictordnode.go
@@ -23,11 +23,17 @@ func StrictOrd[T any](filters ...Filter[T]) Node[T] {
 func (node *strictordnode[T]) TryMerge(next Node[T]) bool {
 	switch nxt := next.(type) {
 	case *seqnode[T]:
+		if len(nxt.filters) == 0 {
+			return false
+		}
 		node.filters = append(node.filters, nxt.filters...)
 		node.receivers = append(node.receivers, nxt.receivers...)
 		node.finalizers = append(node.finalizers, nxt.finalizers...)
 		return true
 	case *strictordnode[T]:
+		if len(nxt.filters) == 0 {
+			return false
+		}
 		node.filters = append(node.filters, nxt.filters...)
 		node.receivers = append(node.receivers, nxt.receivers...)
 		node.finalizers = append(node.finalizers, nxt.finalizers...)
-- 
2.43.0


From f2c1aa7c166d8a94cbfae72b7768b5fe5817c7bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:15 +0000
Subject: [PATCH 09/27] fix: Fetch of scanners must return the number of
 fetched elements

It returned one less when a batch was complete, so a pipeline with a batch size
of 1 processed nothing at all.
---
 pipeline/source.go | 18 ++++++------------
 1 file changed, 6 insertions(+), 12 deletions(-)

diff --git a/pipeline/source.go b/pipeline/source.go
index 5ee9439..36ca0f7 100755
--- a/pipeline/source.go
+++ b/pipeline/source.go
@@ -89,12 +89,9 @@ func (src *Scanner) Prepare(_ context.Context) (size int) {
 // Fetch implements the method of the Source interface.
 func (src *Scanner) Fetch(n int) (fetched int) {
 	var data []string
-	for fetched = range n {
-		if src.Scan() {
-			data = append(data, src.Text())
-		} else {
-			break
-		}
+	for fetched < n && src.Scan() {
+		data = append(data, src.Text())
+		fetched++
 	}
 	src.data = data
 	return
@@ -126,12 +123,9 @@ func (src *BytesScanner) Prepare(_ context.Context) (size int) {
 // Fetch implements the method of the Source interface.
 func (src *BytesScanner) Fetch(n int) (fetched int) {
 	var data [][]byte
-	for fetched = range n {
-		if src.Scan() {
-			data = append(data, slices.Clone(src.Bytes()))
-		} else {
-			break
-		}
+	for fetched < n && src.Scan() {
+		data = append(data, slices.Clone(src.Bytes()))
+		fetched++
 	}
 	src.data = data
 	return
-- 
2.43.0


From 40f26bb17b214cf469078885a4ce77534feed6ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:15 +0000
Subject: [PATCH 10/27] fix: batches of slice sources must not extend into the
 next batch

A receiver that appends to a batch overwrote the elements of the batch after it.
---
 pipeline/source.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pipeline/source.go b/pipeline/source.go
index 36ca0f7..e21d101 100755
--- a/pipeline/source.go
+++ b/pipeline/source.go
@@ -57,7 +57,7 @@ func (src *Slice[T]) Fetch(n int) (fetched int) {
 		src.size = 0
 	default:
 		fetched = n
-		src.data = src.value[:n]
+		src.data = src.value[:n:n]
 		src.value = src.value[n:]
 		src.size -= n
 	}
-- 
2.43.0


From 387af3dbfe302d6f016a63fe691e93d07355f5ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:15 +0000
Subject: [PATCH 11/27] fix: Skip must announce the remaining size

It announced the number of skipped elements as the size for subsequent nodes, so
for example Count or Limit behind it returned wrong results.
---
 pipeline/filters.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pipeline/filters.go b/pipeline/filters.go
index bf8b559..a0a548d 100644
--- a/pipeline/filters.go
+++ b/pipeline/filters.go
@@ -313,7 +313,7 @@ func Skip[T any](n int) Node[[]T] {
 		case n == 0: // nothing to skip
 		case (*size < 0) || (*size > n):
 			if *size > 0 {
-				*size = n
+				*size -= n
 			}
 			seen := 0
 			receiver = func(_ int, data []T) (result []T) {
-- 
2.43.0


From 355af6b85afcfff7289f5b664de3e4a34f84a5fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:15 +0000
Subject: [PATCH 12/27] fix: Count must set the result in sequential and
 ordered nodes

It added to the previous value of the result when the size is unknown.
---
 pipeline/filters.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pipeline/filters.go b/pipeline/filters.go
index a0a548d..26b048b 100644
--- a/pipeline/filters.go
+++ b/pipeline/filters.go
@@ -248,6 +248,7 @@ func Count[T any](result *int) Filter[[]T] {
 				*result = int(atomic.LoadInt64(&res))
 			}
 		default:
+			*result = 0
 			receiver = func(_ int, data []T) []T {
 				*result += len(data)
 				return data
-- 
2.43.0


From ff6b03db15abdb92ce79c9cac750807526ef3d4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:16 +0000
Subject: [PATCH 13/27] fix: the first variable batch must not be larger than
 maxBatchSize

---
 pipeline/pipeline.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pipeline/pipeline.go b/pipeline/pipeline.go
index 07103dd..c8d20f2 100644
--- a/pipeline/pipeline.go
+++ b/pipeline/pipeline.go
@@ -326,7 +326,7 @@ func (p *Pipeline[T]) defaultRunWithContext(ctx context.Context, cancel context.
 		}
 		if dataSize < 0 {
 			p.finalizeVariableBatchSize()
-			for seqNo, batchSize := 0, p.batchInc; p.source.Fetch(batchSize) > 0; seqNo, batchSize = seqNo+1, p.nextBatchSize(batchSize) {
+			for seqNo, batchSize := 0, p.nextBatchSize(0); p.source.Fetch(batchSize) > 0; seqNo, batchSize = seqNo+1, p.nextBatchSize(batchSize) {
 				p.nodes[0].Feed(p, 0, seqNo, p.source.Data())
 				if err := p.source.Err(); err != nil {
 					p.SetErr(err)
-- 
2.43.0


From 17183272d1b702c29720512be563c9c2547d13a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:16 +0000
Subject: [PATCH 14/27] fix: accesses to the error value must be synchronized

Notifiers and receivers may call SetErr while the pipeline is being started or
ended. The error value of the source could overwrite the error value of a
successful SetErr.
---
 pipeline/pipeline.go      | 6 ++++--
 pipeline/transformnode.go | 2 +-
 2 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/pipeline/pipeline.go b/pipeline/pipeline.go
index c8d20f2..395701b 100644
--- a/pipeline/pipeline.go
+++ b/pipeline/pipeline.go
@@ -283,7 +283,7 @@ func (p *Pipeline[T]) RunWithContext(ctx context.Context, cancel context.CancelF
 }
 
 func (p *Pipeline[T]) defaultRunWithContext(ctx context.Context, cancel context.CancelFunc) {
-	if p.err != nil {
+	if p.Err() != nil {
 		return
 	}
 	p.ctx, p.cancel = ctx, cancel
@@ -313,7 +313,7 @@ func (p *Pipeline[T]) defaultRunWithContext(ctx context.Context, cancel context.
 			p.nodes = slices.Delete(p.nodes, index, index+1)
 		}
 	}
-	if p.err != nil {
+	if p.Err() != nil {
 		return
 	}
 	if len(p.nodes) > 0 {
@@ -354,9 +354,11 @@ func (p *Pipeline[T]) defaultRunWithContext(ctx context.Context, cancel context.
 	for _, node := range p.nodes {
 		node.End()
 	}
+	p.mutex.Lock()
 	if p.err == nil {
 		p.err = p.source.Err()
 	}
+	p.mutex.Unlock()
 }
 
 // Run initiates pipeline execution by calling
diff --git a/pipeline/transformnode.go b/pipeline/transformnode.go
index f2da4eb..17c58ab 100644
--- a/pipeline/transformnode.go
+++ b/pipeline/transformnode.go
@@ -105,7 +105,7 @@ func (node *transformNode[S, T]) Begin(_ *Pipeline[S], _ int, dataSize *int) (ke
 			node.next.nodes = slices.Delete(node.next.nodes, index, index+1)
 		}
 	}
-	if node.next.err != nil {
+	if node.next.Err() != nil {
 		return
 	}
 	if len(node.next.nodes) == 0 {
-- 
2.43.0


From 52cf25bc6292a7210f565d2dd125ab9fa9637295 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:08:18 +0000
Subject: [PATCH 15/27] fix: ranges that end near the largest int are divided
 without overflow

Dividing a range rounds the size of batches up, so the middle of the range
could exceed the largest int and become negative. The range function was
then called for indices far outside the range.
---
 parallel/parallel.go       | 12 ++++++------
 speculative/speculative.go |  8 ++++----
 2 files changed, 10 insertions(+), 10 deletions(-)

diff --git a/parallel/parallel.go b/parallel/parallel.go
index 7613b17..5af1cdf 100755
--- a/parallel/parallel.go
+++ b/parallel/parallel.go
@@ -337,7 +337,7 @@ func Range(low, high, n int, f func(low, high int)) {
 			batchSize := ((high - low - 1) / n) + 1
 			half := n / 2
 			mid := low + batchSize*half
-			if mid >= high {
+			if mid < low || mid >= high {
 				f(low, high)
 				return
 			}
@@ -393,7 +393,7 @@ func RangeAnd(low, high, n int, f func(low, high int) bool) bool {
 			batchSize := ((high - low - 1) / n) + 1
 			half := n / 2
 			mid := low + batchSize*half
-			if mid >= high {
+			if mid < low || mid >= high {
 				return f(low, high)
 			}
 			var b0, b1 bool
@@ -449,7 +449,7 @@ func RangeOr(low, high, n int, f func(low, high int) bool) bool {
 			batchSize := ((high - low - 1) / n) + 1
 			half := n / 2
 			mid := low + batchSize*half
-			if mid >= high {
+			if mid < low || mid >= high {
 				return f(low, high)
 			}
 			var b0, b1 bool
@@ -510,7 +510,7 @@ func RangeReduce[T any](
 			batchSize := ((high - low - 1) / n) + 1
 			half := n / 2
 			mid := low + batchSize*half
-			if mid >= high {
+			if mid < low || mid >= high {
 				return reduce(low, high)
 			}
 			var left, right T
@@ -567,7 +567,7 @@ func RangeReduceSum[T Addable](low, high, n int, reduce func(low, high int) T) T
 			batchSize := ((high - low - 1) / n) + 1
 			half := n / 2
 			mid := low + batchSize*half
-			if mid >= high {
+			if mid < low || mid >= high {
 				return reduce(low, high)
 			}
 			var left, right T
@@ -627,7 +627,7 @@ func RangeReduceProduct[T Multipliable](
 			batchSize := ((high - low - 1) / n) + 1
 			half := n / 2
 			mid := low + batchSize*half
-			if mid >= high {
+			if mid < low || mid >= high {
 				return reduce(low, high)
 			}
 			var left, right T
diff --git a/speculative/speculative.go b/speculative/speculative.go
index 69d4e34..de234bf 100755
--- a/speculative/speculative.go
+++ b/speculative/speculative.go
@@ -251,7 +251,7 @@ func Range(low, high, n int, f func(low, high int) bool) bool {
 			batchSize := ((high - low - 1) / n) + 1
 			half := n / 2
 			mid := low + batchSize*half
-			if mid >= high {
+			if mid < low || mid >= high {
 				return f(low, high)
 			}
 			var b1 bool
@@ -310,7 +310,7 @@ func RangeAnd(low, high, n int, f func(low, high int) bool) bool {
 			batchSize := ((high - low - 1) / n) + 1
 			half := n / 2
 			mid := low + batchSize*half
-			if mid >= high {
+			if mid < low || mid >= high {
 				return f(low, high)
 			}
 			var b1 bool
@@ -369,7 +369,7 @@ func RangeOr(low, high, n int, f func(low, high int) bool) bool {
 			batchSize := ((high - low - 1) / n) + 1
 			half := n / 2
 			mid := low + batchSize*half
-			if mid >= high {
+			if mid < low || mid >= high {
 				return f(low, high)
 			}
 			var b1 bool
@@ -437,7 +437,7 @@ func RangeReduce[T any](
 			batchSize := ((high - low - 1) / n) + 1
 			half := n / 2
 			mid := low + batchSize*half
-			if mid >= high {
+			if mid < low || mid >= high {
 				return reduce(low, high)
 			}
 			var left, right T
-- 
2.43.0


From cb2f5c6000a6eec2b39ad17435c7e3c2cf0f164b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:50:28 +0000
Subject: [PATCH 16/27] fix: ranges must be divided evenly when there are
 nearly as many batches as elements

---
 parallel/parallel.go       | 12 ++++++------
 speculative/speculative.go |  8 ++++----
 2 files changed, 10 insertions(+), 10 deletions(-)

diff --git a/parallel/parallel.go b/parallel/parallel.go
index 5af1cdf..69e9a4a 100755
--- a/parallel/parallel.go
+++ b/parallel/parallel.go
@@ -338,7 +338,7 @@ func Range(low, high, n int, f func(low, high int)) {
 			half := n / 2
 			mid := low + batchSize*half
 			if mid < low || mid >= high {
-				f(low, high)
+				recur(low, high, half)
 				return
 			}
 			var p interface{}
@@ -394,7 +394,7 @@ func RangeAnd(low, high, n int, f func(low, high int) bool) bool {
 			half := n / 2
 			mid := low + batchSize*half
 			if mid < low || mid >= high {
-				return f(low, high)
+				return recur(low, high, half)
 			}
 			var b0, b1 bool
 			var p interface{}
@@ -450,7 +450,7 @@ func RangeOr(low, high, n int, f func(low, high int) bool) bool {
 			half := n / 2
 			mid := low + batchSize*half
 			if mid < low || mid >= high {
-				return f(low, high)
+				return recur(low, high, half)
 			}
 			var b0, b1 bool
 			var p interface{}
@@ -511,7 +511,7 @@ func RangeReduce[T any](
 			half := n / 2
 			mid := low + batchSize*half
 			if mid < low || mid >= high {
-				return reduce(low, high)
+				return recur(low, high, half)
 			}
 			var left, right T
 			var p interface{}
@@ -568,7 +568,7 @@ func RangeReduceSum[T Addable](low, high, n int, reduce func(low, high int) T) T
 			half := n / 2
 			mid := low + batchSize*half
 			if mid < low || mid >= high {
-				return reduce(low, high)
+				return recur(low, high, half)
 			}
 			var left, right T
 			var p interface{}
@@ -628,7 +628,7 @@ func RangeReduceProduct[T Multipliable](
 			half := n / 2
 			mid := low + batchSize*half
 			if mid < low || mid >= high {
-				return reduce(low, high)
+				return recur(low, high, half)
 			}
 			var left, right T
 			var p interface{}
diff --git a/speculative/speculative.go b/speculative/speculative.go
index de234bf..5c3c11e 100755
--- a/speculative/speculative.go
+++ b/speculative/speculative.go
@@ -252,7 +252,7 @@ func Range(low, high, n int, f func(low, high int) bool) bool {
 			half := n / 2
 			mid := low + batchSize*half
 			if mid < low || mid >= high {
-				return f(low, high)
+				return recur(low, high, half)
 			}
 			var b1 bool
 			var p interface{}
@@ -311,7 +311,7 @@ func RangeAnd(low, high, n int, f func(low, high int) bool) bool {
 			half := n / 2
 			mid := low + batchSize*half
 			if mid < low || mid >= high {
-				return f(low, high)
+				return recur(low, high, half)
 			}
 			var b1 bool
 			var p interface{}
@@ -370,7 +370,7 @@ func RangeOr(low, high, n int, f func(low, high int) bool) bool {
 			half := n / 2
 			mid := low + batchSize*half
 			if mid < low || mid >= high {
-				return f(low, high)
+				return recur(low, high, half)
 			}
 			var b1 bool
 			var p interface{}
@@ -438,7 +438,7 @@ func RangeReduce[T any](
 			half := n / 2
 			mid := low + batchSize*half
 			if mid < low || mid >= high {
-				return reduce(low, high)
+				return recur(low, high, half)
 			}
 			var left, right T
 			var b0, b1 bool
-- 
2.43.0


From dbcf71b48732e4137f8a10fdf34d50f5acd8f82f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:50:28 +0000
Subject: [PATCH 17/27] fix: a canceled pipeline must not go on fetching from
 its source

---
 pipeline/pipeline.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pipeline/pipeline.go b/pipeline/pipeline.go
index 395701b..b1dd559 100644
--- a/pipeline/pipeline.go
+++ b/pipeline/pipeline.go
@@ -326,7 +326,7 @@ func (p *Pipeline[T]) defaultRunWithContext(ctx context.Context, cancel context.
 		}
 		if dataSize < 0 {
 			p.finalizeVariableBatchSize()
-			for seqNo, batchSize := 0, p.nextBatchSize(0); p.source.Fetch(batchSize) > 0; seqNo, batchSize = seqNo+1, p.nextBatchSize(batchSize) {
+			for seqNo, batchSize := 0, p.nextBatchSize(0); p.ctx.Err() == nil && p.source.Fetch(batchSize) > 0; seqNo, batchSize = seqNo+1, p.nextBatchSize(batchSize) {
 				p.nodes[0].Feed(p, 0, seqNo, p.source.Data())
 				if err := p.source.Err(); err != nil {
 					p.SetErr(err)
@@ -340,7 +340,7 @@ func (p *Pipeline[T]) defaultRunWithContext(ctx context.Context, cancel context.
 			if batchSize == 0 {
 				batchSize = 1
 			}
-			for seqNo := 0; p.source.Fetch(batchSize) > 0; seqNo++ {
+			for seqNo := 0; p.ctx.Err() == nil && p.source.Fetch(batchSize) > 0; seqNo++ {
 				p.nodes[0].Feed(p, 0, seqNo, p.source.Data())
 				if err := p.source.Err(); err != nil {
 					p.SetErr(err)
-- 
2.43.0


From a89e00d7c1a8b5d8cbee26d8d9c9f0634dba029a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:50:28 +0000
Subject: [PATCH 18/27] fix: variable batch sizes must not overflow

---
 pipeline/pipeline.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pipeline/pipeline.go b/pipeline/pipeline.go
index b1dd559..5953b84 100644
--- a/pipeline/pipeline.go
+++ b/pipeline/pipeline.go
@@ -249,7 +249,7 @@ func (p *Pipeline[T]) finalizeVariableBatchSize() {
 
 func (p *Pipeline[T]) nextBatchSize(batchSize int) (result int) {
 	result = batchSize + p.batchInc
-	if result > p.maxBatchSize {
+	if result > p.maxBatchSize || result < batchSize {
 		result = p.maxBatchSize
 	}
 	return
-- 
2.43.0


From 35c38064ba8ef895a800812bc6a2f4ba69a6f8ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:50:28 +0000
Subject: [PATCH 19/27] fix: SetErr must not panic before Run

---
 pipeline/pipeline.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pipeline/pipeline.go b/pipeline/pipeline.go
index 5953b84..9edcebd 100644
--- a/pipeline/pipeline.go
+++ b/pipeline/pipeline.go
@@ -157,7 +157,9 @@ func (p *Pipeline[T]) SetErr(err error) bool {
 	if p.err == nil {
 		p.err = err
 		p.mutex.Unlock()
-		p.cancel()
+		if p.cancel != nil {
+			p.cancel()
+		}
 		return true
 	}
 	p.mutex.Unlock()
-- 
2.43.0


From 7c411e807d96ee3173f6c2fd6222b88e4d52960b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:39 +0000
Subject: [PATCH 20/27] fix: SetErr must not miss the start of a pipeline

---
 pipeline/pipeline.go | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/pipeline/pipeline.go b/pipeline/pipeline.go
index 9edcebd..a8f9c6d 100644
--- a/pipeline/pipeline.go
+++ b/pipeline/pipeline.go
@@ -156,9 +156,10 @@ func (p *Pipeline[T]) SetErr(err error) bool {
 	p.mutex.Lock()
 	if p.err == nil {
 		p.err = err
+		cancel := p.cancel
 		p.mutex.Unlock()
-		if p.cancel != nil {
-			p.cancel()
+		if cancel != nil {
+			cancel()
 		}
 		return true
 	}
@@ -285,10 +286,13 @@ func (p *Pipeline[T]) RunWithContext(ctx context.Context, cancel context.CancelF
 }
 
 func (p *Pipeline[T]) defaultRunWithContext(ctx context.Context, cancel context.CancelFunc) {
-	if p.Err() != nil {
+	p.mutex.Lock()
+	if p.err != nil {
+		p.mutex.Unlock()
 		return
 	}
 	p.ctx, p.cancel = ctx, cancel
+	p.mutex.Unlock()
 	for i, notifier := range p.notifiers {
 		go notifier()
 		p.notifiers[i] = nil
-- 
2.43.0


From e4712b40f85b6f46f58f8f3aeeb160dfffd42e86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:41 +0000
Subject: [PATCH 21/27] fix: IsSorted must wait for the ranges it has abandoned

The previous repair made IsSorted use package parallel, so that it examined all
ranges of a collection to their end. It terminates early again, like documented,
but does not return before the goroutines it does not need anymore are done.
---
 psort/sort.go | 26 +++++++++++++++++++-------
 1 file changed, 19 insertions(+), 7 deletions(-)

diff --git a/psort/sort.go b/psort/sort.go
index 210d302..9835cd7 100644
--- a/psort/sort.go
+++ b/psort/sort.go
@@ -3,9 +3,10 @@ package psort
 
 import (
 	"sort"
+	"sync"
 	"sync/atomic"
 
-	"github.com/intel/forGoParallel/parallel"
+	"github.com/intel/forGoParallel/speculative"
 )
 
 // SequentialSorter is a type, typically a collection, that can be sequentially
@@ -34,6 +35,13 @@ func IsSorted(data sort.Interface) bool {
 		}
 	}
 	var done int32
+	var wg sync.WaitGroup
+	defer func() {
+		// The callers of IsSorted may modify data as soon as it returns, so all
+		// goroutines that access data must have terminated by then.
+		atomic.StoreInt32(&done, 1)
+		wg.Wait()
+	}()
 	var pTest func(int, int) bool
 	pTest = func(index, size int) bool {
 		if size < qsortGrainSize {
@@ -43,18 +51,22 @@ func IsSorted(data sort.Interface) bool {
 					return false
 				}
 				if data.Less(j, j-1) {
-					atomic.StoreInt32(&done, 1)
 					return false
 				}
 			}
 			return true
 		}
 		half := size / 2
-		// The callers of IsSorted may modify data as soon as it returns, so all
-		// goroutines that access data must have terminated by then.
-		result := parallel.And(
-			func() bool { return pTest(index, half) },
-			func() bool { return pTest(index+half, size-half) },
+		wg.Add(2)
+		result := speculative.And(
+			func() bool {
+				defer wg.Done()
+				return pTest(index, half)
+			},
+			func() bool {
+				defer wg.Done()
+				return pTest(index+half, size-half)
+			},
 		)
 		return result
 	}
-- 
2.43.0


From af6e44ad4f1de2e9a5d2f8fe1e1be4b0745a84cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:38 +0000
Subject: [PATCH 22/27] fix: inverted ranges must be rejected even if their
 size overflows

---
 internal/internal.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/internal/internal.go b/internal/internal.go
index b93740d..0a80cfb 100755
--- a/internal/internal.go
+++ b/internal/internal.go
@@ -10,6 +10,8 @@ import (
 // a default is used that takes runtime.NumCPU() into account.
 func ComputeNofBatches(low, high, n int) (batches int) {
 	switch size := high - low; {
+	case high < low: // size may have overflowed
+		panic(fmt.Sprintf("invalid range: %v:%v", low, high))
 	case size > 0:
 		switch {
 		case n == 0:
-- 
2.43.0


From e79fe8150a686126928fbb57d437c5bb3005fd27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:33 +0000
Subject: [PATCH 23/27] fix: a negative number of batches must be rejected also
 for empty ranges

---
 internal/internal.go | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/internal/internal.go b/internal/internal.go
index 0a80cfb..20cb27f 100755
--- a/internal/internal.go
+++ b/internal/internal.go
@@ -12,14 +12,13 @@ func ComputeNofBatches(low, high, n int) (batches int) {
 	switch size := high - low; {
 	case high < low: // size may have overflowed
 		panic(fmt.Sprintf("invalid range: %v:%v", low, high))
+	case n < 0:
+		panic(fmt.Sprintf("invalid number of batches: %v", n))
 	case size > 0:
-		switch {
-		case n == 0:
+		if n == 0 {
 			batches = 2 * runtime.NumCPU()
-		case n > 0:
+		} else {
 			batches = n
-		default:
-			panic(fmt.Sprintf("invalid number of batches: %v", n))
 		}
 		if batches > size {
 			batches = size
-- 
2.43.0


From c4ed25029fde75fcee07be113cb7b9cd6e17fe57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:02:12 +0000
Subject: [PATCH 24/27] fix: merging nodes must not write to the filter slices
 of the caller

---
 pipeline/lparnode.go      | 3 ++-
 pipeline/parnode.go       | 3 ++-
 pipeline/seqnode.go       | 5 +++--
 pipeline/strictordnode.go | 3 ++-
 4 files changed, 9 insertions(+), 5 deletions(-)

diff --git a/pipeline/lparnode.go b/pipeline/lparnode.go
index 5d8d052..bbd6f70 100644
--- a/pipeline/lparnode.go
+++ b/pipeline/lparnode.go
@@ -2,6 +2,7 @@ package pipeline
 
 import (
 	"runtime"
+	"slices"
 	"sync"
 )
 
@@ -19,7 +20,7 @@ type lparnode[T any] struct {
 
 // LimitedPar creates a parallel node with the given filters.
 func LimitedPar[T any](filters ...Filter[T]) Node[T] {
-	return &lparnode[T]{limit: runtime.NumCPU(), filters: filters}
+	return &lparnode[T]{limit: runtime.NumCPU(), filters: slices.Clip(filters)}
 }
 
 func (node *lparnode[T]) makeOrdered() {
diff --git a/pipeline/parnode.go b/pipeline/parnode.go
index 7bc53f5..e292a2d 100644
--- a/pipeline/parnode.go
+++ b/pipeline/parnode.go
@@ -1,6 +1,7 @@
 package pipeline
 
 import (
+	"slices"
 	"sync"
 )
 
@@ -13,7 +14,7 @@ type parnode[T any] struct {
 
 // Par creates a parallel node with the given filters.
 func Par[T any](filters ...Filter[T]) Node[T] {
-	return &parnode[T]{filters: filters}
+	return &parnode[T]{filters: slices.Clip(filters)}
 }
 
 // Implements the TryMerge method of the Node interface.
diff --git a/pipeline/seqnode.go b/pipeline/seqnode.go
index 1ed3d1e..87c4b2b 100644
--- a/pipeline/seqnode.go
+++ b/pipeline/seqnode.go
@@ -1,6 +1,7 @@
 package pipeline
 
 import (
+	"slices"
 	"sync"
 )
 
@@ -23,12 +24,12 @@ type (
 
 // Ord creates an ordered node with the given filters.
 func Ord[T any](filters ...Filter[T]) Node[T] {
-	return &seqnode[T]{kind: Ordered, filters: filters}
+	return &seqnode[T]{kind: Ordered, filters: slices.Clip(filters)}
 }
 
 // Seq creates a sequential node with the given filters.
 func Seq[T any](filters ...Filter[T]) Node[T] {
-	return &seqnode[T]{kind: Sequential, filters: filters}
+	return &seqnode[T]{kind: Sequential, filters: slices.Clip(filters)}
 }
 
 // Implements the TryMerge method of the Node interface.
diff --git a/pipeline/strictordnode.go b/pipeline/strictordnode.go
index 8f8de71..1b8cbe6 100644
--- a/pipeline/strictordnode.go
+++ b/pipeline/strictordnode.go
@@ -1,6 +1,7 @@
 package pipeline
 
 import (
+	"slices"
 	"sync"
 )
 
@@ -16,7 +17,7 @@ type strictordnode[T any] struct {
 
 // StrictOrd creates an ordered node with the given filters.
 func StrictOrd[T any](filters ...Filter[T]) Node[T] {
-	return &strictordnode[T]{filters: filters}
+	return &strictordnode[T]{filters: slices.Clip(filters)}
 }
 
 // Implements the TryMerge method of the Node interface.
-- 
2.43.0


From 8baa620c956477c53fb3e59b7d816408f01d7ce8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:02:14 +0000
Subject: [PATCH 25/27] fix: the last batch of a slice source must not extend
 behind the slice

---
 pipeline/source.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pipeline/source.go b/pipeline/source.go
index e21d101..6179659 100755
--- a/pipeline/source.go
+++ b/pipeline/source.go
@@ -52,7 +52,7 @@ func (src *Slice[T]) Fetch(n int) (fetched int) {
 		src.data = nil
 	case n >= src.size:
 		fetched = src.size
-		src.data = src.value
+		src.data = slices.Clip(src.value)
 		src.value = nil
 		src.size = 0
 	default:
-- 
2.43.0


From 7739c453733a818c3be708aa224561cd6c2d69d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:54:40 +0000
Subject: [PATCH 26/27] fix: announce an unknown size behind a transformation,
 which may change the sizes of batches

---
 pipeline/transformnode.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pipeline/transformnode.go b/pipeline/transformnode.go
index 17c58ab..f9de87c 100644
--- a/pipeline/transformnode.go
+++ b/pipeline/transformnode.go
@@ -98,6 +98,8 @@ func (node *transformNode[S, T]) TryMerge(_ Node[S]) (merged bool) {
 }
 
 func (node *transformNode[S, T]) Begin(_ *Pipeline[S], _ int, dataSize *int) (keep bool) {
+	// The transform function may change the sizes of batches.
+	*dataSize = -1
 	for index := 0; index < len(node.next.nodes); {
 		if node.next.nodes[index].Begin(node.next, index, dataSize) {
 			index++
-- 
2.43.0


From 3e5d083c3b1d7f6b335da51a9071c4eb556df829 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:42:38 +0000
Subject: [PATCH 27/27] fix: PrefixSum must not overwrite its argument

---
 parallel/parallel.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/parallel/parallel.go b/parallel/parallel.go
index 69e9a4a..d56647e 100755
--- a/parallel/parallel.go
+++ b/parallel/parallel.go
@@ -4,6 +4,7 @@ package parallel
 import (
 	"fmt"
 	"math"
+	"slices"
 	"sync"
 
 	"github.com/intel/forGoParallel/internal"
@@ -655,6 +656,7 @@ func RangeReduceProduct[T Multipliable](
 }
 
 func PrefixSum[T Addable](slice []T) []T {
+	slice = slices.Clone(slice) // is used as temporary memory
 	result := make([]T, len(slice))
 	for i := range int(math.Ceil(math.Log2(float64(len(slice))))) {
 		l := int(math.Exp2(float64(i)))
-- 
2.43.0

