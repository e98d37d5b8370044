From b7c2ebec7fc09ad8e73fa81247de4e73c6a7d8f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:52:42 +0000
Subject: [PATCH 01/24] fix: idxtable: GetAll must not take the read lock twice

GetAll held the read lock and called Iterate, which takes it again. With a
writer queued in between, sync.RWMutex blocks the second RLock forever.
---
 pkg/idxtable/table.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/idxtable/table.go b/pkg/idxtable/table.go
index 8d6f0e2..29f07eb 100644
--- a/pkg/idxtable/table.go
+++ b/pkg/idxtable/table.go
@@ -319,7 +319,7 @@ func (r *table[T1]) GetAll() Entries[T1] {
 
 	entries := make([]Entry[T1], 0, len(r.table))
 
-	iter := r.Iterate()
+	iter := r.iterate()
 	for iter.Next() {
 		entries = append(entries, iter.Value())
 	}
-- 
2.43.0


From beaa885e8d35ffcee6b260cf64eb2611aa187d8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:52:42 +0000
Subject: [PATCH 02/24] fix: idxtable: iterators must not read the live table

The iterator looked its values up in the table's own map after the lock was
released: a data race with any writer, and a nil or newer value for an id that
was released or updated after the iterator was taken.
---
 pkg/idxtable/table.go | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/pkg/idxtable/table.go b/pkg/idxtable/table.go
index 29f07eb..80c44ce 100644
--- a/pkg/idxtable/table.go
+++ b/pkg/idxtable/table.go
@@ -151,14 +151,17 @@ func (r *table[T1]) Iterate() *Iterator[T1] {
 
 func (r *table[T1]) iterate() *Iterator[T1] {
 	keys := make([]uint64, 0, len(r.table))
-	for key := range r.table {
+	// the iterator outlives the lock, so it gets its own copy of the entries
+	entries := make(map[uint64]Entry[T1], len(r.table))
+	for key, e := range r.table {
 		keys = append(keys, key)
+		entries[key] = e
 	}
 	sort.Slice(keys, func(i int, j int) bool {
 		return keys[i] < keys[j]
 	})
 
-	return &Iterator[T1]{current: 1<<64 -1, keys: keys, table: r.table}
+	return &Iterator[T1]{current: 1<<64 -1, keys: keys, table: entries}
 }
 
 func (r *table[T1]) IterateFree() *Iterator[T1] {
@@ -185,7 +188,7 @@ func (r *table[T1]) iterateFree() *Iterator[T1] {
 		return keys[i] < keys[j]
 	})
 
-	return &Iterator[T1]{current: 1<<64-1, keys: keys, table: r.table}
+	return &Iterator[T1]{current: 1<<64-1, keys: keys}
 }
 
 func (r *table[T1]) Size() int {
-- 
2.43.0


From fa27f69418df36302e17567eac4377d55396f577 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:53:05 +0000
Subject: [PATCH 03/24] fix: idxtable: FindFreeRange checks every id of the
 range

The scan over the free ids took the first free id at or beyond the end of the
range as its last one, so a used last id was not noticed and an id outside the
range was returned and claimed instead; a range of one id claimed two, or failed
at the end of the table; size 0 and start+size beyond 2^64 were not rejected.
---
 pkg/idxtable/table.go | 26 +++++++++++---------------
 1 file changed, 11 insertions(+), 15 deletions(-)

diff --git a/pkg/idxtable/table.go b/pkg/idxtable/table.go
index 80c44ce..de46def 100644
--- a/pkg/idxtable/table.go
+++ b/pkg/idxtable/table.go
@@ -232,7 +232,13 @@ func (r *table[T1]) FindFreeRange(start, size uint64) ([]uint64, error) {
 }
 
 func (r *table[T1]) findFreeRange(start, size uint64) ([]uint64, error) {
+	if size == 0 {
+		return nil, fmt.Errorf("size must be bigger then 0")
+	}
 	end := start + size - 1
+	if end < start {
+		return nil, fmt.Errorf("range start %d, size %d overflows", start, size)
+	}
 
 	if start > r.size-1 {
 		return nil, fmt.Errorf("start %d is bigger then max allowed entries: %d", start, r.size)
@@ -242,25 +248,15 @@ func (r *table[T1]) findFreeRange(start, size uint64) ([]uint64, error) {
 	}
 
 	entries := []uint64{}
-	free := r.iterateFree()
-	for free.Next() {
-		if free.ID() < start {
-			continue
+	for id := start; ; id++ {
+		if !r.isFree(id) {
+			return nil, fmt.Errorf("entry %d in use in range: start: %d, end %d", id, start, end)
 		}
-		switch {
-		case free.ID() == start:
-			entries = append(entries, free.ID())
-		case free.ID() > start && free.ID() < end:
-			if !free.IsConsecutive() {
-				return nil, fmt.Errorf("entry %d in use in range: start: %d, end %d", free.ID(), start, end)
-			}
-			entries = append(entries, free.ID())
-		default:
-			entries = append(entries, free.ID())
+		entries = append(entries, id)
+		if id == end {
 			return entries, nil
 		}
 	}
-	return nil, fmt.Errorf("could not find free range that fit in start %d, size %d", start, size)
 }
 
 func (r *table[T1]) FindFreeSize(size uint64) ([]uint64, error) {
-- 
2.43.0


From ba9faf0d2fa85eb00406fb7cff91e8206bd09a51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:53:33 +0000
Subject: [PATCH 04/24] fix: idxtable: searching free ids must not list all of
 them

FindFree, ClaimDynamic, FindFreeSize and ClaimSize built a sorted list and a map
of every free id of the table to use the first few: for the 32-bit, 64-bit and
IPv6 tables built on top this takes gigabytes or never ends. Look for the next
free id instead, which skips at most the claimed ones.
---
 pkg/idxtable/table.go | 46 ++++++++++++++++++++++++++++---------------
 1 file changed, 30 insertions(+), 16 deletions(-)

diff --git a/pkg/idxtable/table.go b/pkg/idxtable/table.go
index de46def..fe4b208 100644
--- a/pkg/idxtable/table.go
+++ b/pkg/idxtable/table.go
@@ -2,6 +2,7 @@ package idxtable
 
 import (
 	"fmt"
+	"math"
 	"sort"
 	"sync"
 )
@@ -78,9 +79,8 @@ func (r *table[T1]) ClaimDynamic(d T1) (Entry[T1], error) {
 	r.m.Lock()
 	defer r.m.Unlock()
 
-	free := r.iterateFree()
-	if free.Next() {
-		e := NewEntry(free.ID(), d)
+	if id, ok := r.nextFree(0); ok {
+		e := NewEntry(id, d)
 		if err := r.add(e); err != nil {
 			return nil, err
 		}
@@ -173,15 +173,11 @@ func (r *table[T1]) IterateFree() *Iterator[T1] {
 
 func (r *table[T1]) iterateFree() *Iterator[T1] {
 	var keys []uint64
-	table := map[uint64]T1{}
-
-	var d T1
 
 	for id := uint64(0); id < r.size; id++ {
 		_, exists := r.table[id]
 		if !exists {
 			keys = append(keys, id)
-			table[id] = d
 		}
 	}
 	sort.Slice(keys, func(i int, j int) bool {
@@ -216,11 +212,25 @@ func (r *table[T1]) isFree(id uint64) bool {
 	return !ok
 }
 
+// nextFree returns the lowest free id that is equal to or bigger then id
+func (r *table[T1]) nextFree(id uint64) (uint64, bool) {
+	for ; r.validate(id) == nil; id++ {
+		if r.isFree(id) {
+			return id, true
+		}
+		if id == math.MaxUint64 {
+			break
+		}
+	}
+	return 0, false
+}
+
 func (r *table[T1]) FindFree() (uint64, error) {
-	free := r.IterateFree()
+	r.m.RLock()
+	defer r.m.RUnlock()
 
-	if free.Next() {
-		return free.ID(), nil
+	if id, ok := r.nextFree(0); ok {
+		return id, nil
 	}
 	return 0, fmt.Errorf("no free entry found")
 }
@@ -266,18 +276,22 @@ func (r *table[T1]) FindFreeSize(size uint64) ([]uint64, error) {
 }
 
 func (r *table[T1]) findFreeSize(size uint64) ([]uint64, error) {
+	if size == 0 {
+		return nil, fmt.Errorf("size must be bigger then 0")
+	}
 	if size > r.size {
 		return nil, fmt.Errorf("size %d is bigger then max allowed entries: %d", size, r.size)
 	}
 	entries := []uint64{}
-	free := r.iterateFree()
-	i := uint64(0)
-	for free.Next() {
-		i++
-		entries = append(entries, free.ID())
-		if i > size-1 {
+	id, ok := r.nextFree(0)
+	for ; ok; id, ok = r.nextFree(id + 1) {
+		entries = append(entries, id)
+		if uint64(len(entries)) > size-1 {
 			return entries, nil
 		}
+		if id == math.MaxUint64 {
+			break
+		}
 	}
 	return nil, fmt.Errorf("could not find free entries that fit in size %d", size)
 }
-- 
2.43.0


From d759f68cfa74c4d18b9e278efe2201eea970e119 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:54:19 +0000
Subject: [PATCH 05/24] fix: table16/32/64: the full window and reversed
 windows have the right size

end - start + 1 was computed in the id's own width: for the full window it wraps
to 0, and FindFree and ClaimFree always failed; for start > end it wraps to a
large size, and FindFree returned ids that no other operation accepts. The 64-bit
window needs a table of 2^64 ids, which NewTableMax provides.
---
 pkg/idxtable/table.go        | 16 +++++++++++++++-
 pkg/table/table16/table16.go | 11 ++++++++---
 pkg/table/table32/table32.go | 11 ++++++++---
 pkg/table/table64/table64.go | 11 ++++++++---
 4 files changed, 39 insertions(+), 10 deletions(-)

diff --git a/pkg/idxtable/table.go b/pkg/idxtable/table.go
index fe4b208..eb95915 100644
--- a/pkg/idxtable/table.go
+++ b/pkg/idxtable/table.go
@@ -40,10 +40,24 @@ func NewTable[T1 any](size uint64) Table[T1] {
 	return r
 }
 
+// NewTableMax returns a table with the ids 0 up to and including max, as
+// the size of a table with all 2^64 ids does not fit in an uint64
+func NewTableMax[T1 any](max uint64) Table[T1] {
+	r := &table[T1]{
+		m:     new(sync.RWMutex),
+		table: map[uint64]Entry[T1]{},
+		size:  max + 1,
+		full:  max == math.MaxUint64,
+	}
+
+	return r
+}
+
 type table[T1 any] struct {
 	m     *sync.RWMutex
 	table map[uint64]Entry[T1]
 	size  uint64
+	full  bool // the table has 2^64 ids, size is 0
 }
 
 func (r *table[T1]) validate(id uint64) error {
@@ -279,7 +293,7 @@ func (r *table[T1]) findFreeSize(size uint64) ([]uint64, error) {
 	if size == 0 {
 		return nil, fmt.Errorf("size must be bigger then 0")
 	}
-	if size > r.size {
+	if size > r.size && !r.full {
 		return nil, fmt.Errorf("size %d is bigger then max allowed entries: %d", size, r.size)
 	}
 	entries := []uint64{}
diff --git a/pkg/table/table16/table16.go b/pkg/table/table16/table16.go
index acf36cb..f9b3c62 100644
--- a/pkg/table/table16/table16.go
+++ b/pkg/table/table16/table16.go
@@ -13,14 +13,19 @@ import (
 
 func New(start, end uint16) table.Table {
 	return &table16{
-		table: idxtable.NewTable[tree.Entry](
-			uint64(end - start + 1),
-		),
+		table: newTable(start, end),
 		start: start,
 		end:   end,
 	}
 }
 
+func newTable(start, end uint16) idxtable.Table[tree.Entry] {
+	if start > end {
+		return idxtable.NewTable[tree.Entry](0)
+	}
+	return idxtable.NewTableMax[tree.Entry](uint64(end - start))
+}
+
 type table16 struct {
 	table idxtable.Table[tree.Entry]
 	start uint16
diff --git a/pkg/table/table32/table32.go b/pkg/table/table32/table32.go
index 8076a79..378899d 100644
--- a/pkg/table/table32/table32.go
+++ b/pkg/table/table32/table32.go
@@ -12,14 +12,19 @@ import (
 
 func New(start, end uint32) table.Table {
 	return &table32{
-		table: idxtable.NewTable[tree.Entry](
-			uint64(end - start + 1),
-		),
+		table: newTable(start, end),
 		start: start,
 		end:   end,
 	}
 }
 
+func newTable(start, end uint32) idxtable.Table[tree.Entry] {
+	if start > end {
+		return idxtable.NewTable[tree.Entry](0)
+	}
+	return idxtable.NewTableMax[tree.Entry](uint64(end - start))
+}
+
 type table32 struct {
 	table idxtable.Table[tree.Entry]
 	start uint32
diff --git a/pkg/table/table64/table64.go b/pkg/table/table64/table64.go
index 40f4fb6..b667560 100644
--- a/pkg/table/table64/table64.go
+++ b/pkg/table/table64/table64.go
@@ -12,14 +12,19 @@ import (
 
 func New(start, end uint64) table.Table {
 	return &table64{
-		table: idxtable.NewTable[tree.Entry](
-			uint64(end - start + 1),
-		),
+		table: newTable(start, end),
 		start: start,
 		end:   end,
 	}
 }
 
+func newTable(start, end uint64) idxtable.Table[tree.Entry] {
+	if start > end {
+		return idxtable.NewTable[tree.Entry](0)
+	}
+	return idxtable.NewTableMax[tree.Entry](uint64(end - start))
+}
+
 type table64 struct {
 	table idxtable.Table[tree.Entry]
 	start uint64
-- 
2.43.0


From 53af119111500257c64f235070410da94ab328d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:54:19 +0000
Subject: [PATCH 06/24] fix: iptable: ranges of 2^63 and more addresses,
 reversed and mixed-family ranges

The number of addresses was computed as an int: for an IPv6 /64 it wraps to 0 and
FindFree always failed, for a /65 to -2^63, and other wide ranges got an arbitrary
size. Reversed and mixed-family ranges, which contain no address, got a size too and
FindFree returned addresses that no other operation accepts.
---
 pkg/iptable/iptable.go | 21 ++++++++++++++++-----
 1 file changed, 16 insertions(+), 5 deletions(-)

diff --git a/pkg/iptable/iptable.go b/pkg/iptable/iptable.go
index 4d78b9d..1d3920c 100644
--- a/pkg/iptable/iptable.go
+++ b/pkg/iptable/iptable.go
@@ -2,6 +2,7 @@ package iptable
 
 import (
 	"fmt"
+	"math"
 	"math/big"
 	"net/netip"
 
@@ -29,13 +30,18 @@ type IPTable interface {
 
 func New(from, to netip.Addr) IPTable {
 	return &ipTable{
-		table: idxtable.NewTable[table.Route](
-			uint64(numIPs(from, to)),
-		),
+		table:   newTable(from, to),
 		ipRange: netipx.IPRangeFrom(from, to),
 	}
 }
 
+func newTable(from, to netip.Addr) idxtable.Table[table.Route] {
+	if !netipx.IPRangeFrom(from, to).IsValid() {
+		return idxtable.NewTable[table.Route](0)
+	}
+	return idxtable.NewTableMax[table.Route](maxIndex(from, to))
+}
+
 type ipTable struct {
 	table   idxtable.Table[table.Route]
 	ipRange netipx.IPRange
@@ -166,13 +172,18 @@ func calculateIndex(ip, start netip.Addr) uint64 {
 	return new(big.Int).Sub(ipToInt(ip), ipToInt(start)).Uint64()
 }
 
-func numIPs(startIP, endIP netip.Addr) int {
+// maxIndex returns the index of the last IP of the range; a range with more then
+// 2^64 addresses is served from its first 2^64
+func maxIndex(startIP, endIP netip.Addr) uint64 {
 	// Convert IP addresses to big integers
 	start := ipToInt(startIP)
 	end := ipToInt(endIP)
 
 	diff := new(big.Int).Sub(end, start)
-	return int(diff.Int64()) + 1 // Add 1 to include the start IP
+	if !diff.IsUint64() {
+		return math.MaxUint64
+	}
+	return diff.Uint64()
 }
 
 func ipToInt(ip netip.Addr) *big.Int {
-- 
2.43.0


From 59d6fd9602f135f5102acdc18908f940bec3d195 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:54:19 +0000
Subject: [PATCH 07/24] fix: idxtable: a table of size 0 holds no ids

size-1 wraps around for size 0, so every id was accepted by Claim, Release and the
range operations.
---
 pkg/idxtable/table.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/pkg/idxtable/table.go b/pkg/idxtable/table.go
index eb95915..6e711eb 100644
--- a/pkg/idxtable/table.go
+++ b/pkg/idxtable/table.go
@@ -61,6 +61,9 @@ type table[T1 any] struct {
 }
 
 func (r *table[T1]) validate(id uint64) error {
+	if r.size == 0 && !r.full {
+		return fmt.Errorf("id %d is not available in a table without entries", id)
+	}
 	if id > r.size-1 {
 		return fmt.Errorf("id %d is bigger then max allowed entries: %d", id, r.size-1)
 	}
@@ -264,6 +267,9 @@ func (r *table[T1]) findFreeRange(start, size uint64) ([]uint64, error) {
 		return nil, fmt.Errorf("range start %d, size %d overflows", start, size)
 	}
 
+	if err := r.validate(start); err != nil {
+		return nil, err
+	}
 	if start > r.size-1 {
 		return nil, fmt.Errorf("start %d is bigger then max allowed entries: %d", start, r.size)
 	}
-- 
2.43.0


From 6934248bbdc1a6e03c52255dd4ff51d4719746c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:54:20 +0000
Subject: [PATCH 08/24] fix: table16/32/64: every read path reports the claimed
 id in the table's width

Get returned the stored entry, whose id is the slot index inside the table instead
of the claimed id, and table16 listed 32-bit ids, so entries of one id from
different calls were not equal.
---
 pkg/table/table16/table16.go | 8 ++++----
 pkg/table/table32/table32.go | 3 ++-
 pkg/table/table64/table64.go | 3 ++-
 3 files changed, 8 insertions(+), 6 deletions(-)

diff --git a/pkg/table/table16/table16.go b/pkg/table/table16/table16.go
index f9b3c62..714a05a 100644
--- a/pkg/table/table16/table16.go
+++ b/pkg/table/table16/table16.go
@@ -7,7 +7,6 @@ import (
 	"github.com/henderiw/idxtable/pkg/table"
 	"github.com/henderiw/idxtable/pkg/tree"
 	"github.com/henderiw/idxtable/pkg/tree/id16"
-	"github.com/henderiw/idxtable/pkg/tree/id32"
 	"k8s.io/apimachinery/pkg/labels"
 )
 
@@ -43,7 +42,8 @@ func (r *table16) Get(id uint64) (tree.Entry, error) {
 	if err != nil {
 		return entry, err
 	}
-	return e.Data(), nil
+	// need to remap the id for the outside world
+	return tree.NewEntry(id16.NewID(calculateIDFromIndex(r.start, e.ID()), id16.IDBitSize), e.Data().Labels()), nil
 }
 
 func (r *table16) Claim(id uint64, labels labels.Set) error {
@@ -130,7 +130,7 @@ func (r *table16) GetAll() tree.Entries {
 	entries := make(tree.Entries, 0, r.table.Size())
 	for _, entry := range r.table.GetAll() {
 		// need to remap the id for the outside world
-		entry := tree.NewEntry(id32.NewID(uint32(calculateIDFromIndex(r.start, entry.ID())), 32), entry.Data().Labels())
+		entry := tree.NewEntry(id16.NewID(calculateIDFromIndex(r.start, entry.ID()), id16.IDBitSize), entry.Data().Labels())
 
 		entries = append(entries, entry)
 	}
@@ -146,7 +146,7 @@ func (r *table16) GetByLabel(selector labels.Selector) tree.Entries {
 		entry := iter.Value().Data()
 		if selector.Matches(entry.Labels()) {
 			// need to remap the id for the outside world
-			entry := tree.NewEntry(id32.NewID(uint32(calculateIDFromIndex(r.start, uint64(entry.ID().ID()))), 32), entry.Labels())
+			entry := tree.NewEntry(id16.NewID(calculateIDFromIndex(r.start, uint64(entry.ID().ID())), id16.IDBitSize), entry.Labels())
 			entries = append(entries, entry)
 		}
 	}
diff --git a/pkg/table/table32/table32.go b/pkg/table/table32/table32.go
index 378899d..0818915 100644
--- a/pkg/table/table32/table32.go
+++ b/pkg/table/table32/table32.go
@@ -42,7 +42,8 @@ func (r *table32) Get(id uint64) (tree.Entry, error) {
 	if err != nil {
 		return entry, err
 	}
-	return e.Data(), nil
+	// need to remap the id for the outside world
+	return tree.NewEntry(id32.NewID(calculateIDFromIndex(r.start, e.ID()), id32.IDBitSize), e.Data().Labels()), nil
 }
 
 func (r *table32) Claim(id uint64, labels labels.Set) error {
diff --git a/pkg/table/table64/table64.go b/pkg/table/table64/table64.go
index b667560..872e95e 100644
--- a/pkg/table/table64/table64.go
+++ b/pkg/table/table64/table64.go
@@ -42,7 +42,8 @@ func (r *table64) Get(id uint64) (tree.Entry, error) {
 	if err != nil {
 		return entry, err
 	}
-	return e.Data(), nil
+	// need to remap the id for the outside world
+	return tree.NewEntry(id64.NewID(calculateIDFromIndex(r.start, e.ID()), id64.IDBitSize), e.Data().Labels()), nil
 }
 
 func (r *table64) Claim(id uint64, labels labels.Set) error {
-- 
2.43.0


From 2ff0530709afdd2d16cb67a8a4e5f0798f02987e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:54:20 +0000
Subject: [PATCH 09/24] fix: table16/32/64: ClaimFree must not lose its id to a
 concurrent claim

ClaimFree looked for a free id and claimed it in two separate steps. With another
ClaimFree or Claim in between it failed although free ids were left, and with a
Release in between it did not return the lowest free id.
---
 pkg/table/table16/table16.go | 16 +++++++++++++++-
 pkg/table/table32/table32.go | 16 +++++++++++++++-
 pkg/table/table64/table64.go | 16 +++++++++++++++-
 3 files changed, 45 insertions(+), 3 deletions(-)

diff --git a/pkg/table/table16/table16.go b/pkg/table/table16/table16.go
index 714a05a..e170b6d 100644
--- a/pkg/table/table16/table16.go
+++ b/pkg/table/table16/table16.go
@@ -2,6 +2,7 @@ package table16
 
 import (
 	"fmt"
+	"sync"
 
 	"github.com/henderiw/idxtable/pkg/idxtable"
 	"github.com/henderiw/idxtable/pkg/table"
@@ -13,6 +14,7 @@ import (
 func New(start, end uint16) table.Table {
 	return &table16{
 		table: newTable(start, end),
+		m:     new(sync.Mutex),
 		start: start,
 		end:   end,
 	}
@@ -26,6 +28,7 @@ func newTable(start, end uint16) idxtable.Table[tree.Entry] {
 }
 
 type table16 struct {
+	m     *sync.Mutex // makes finding and claiming a free id one step
 	table idxtable.Table[tree.Entry]
 	start uint16
 	end   uint16
@@ -47,6 +50,13 @@ func (r *table16) Get(id uint64) (tree.Entry, error) {
 }
 
 func (r *table16) Claim(id uint64, labels labels.Set) error {
+	r.m.Lock()
+	defer r.m.Unlock()
+
+	return r.claim(id, labels)
+}
+
+func (r *table16) claim(id uint64, labels labels.Set) error {
 	// Validate input
 	if err := r.validateID(id); err != nil {
 		return err
@@ -62,13 +72,15 @@ func (r *table16) Claim(id uint64, labels labels.Set) error {
 }
 
 func (r *table16) ClaimFree(labels labels.Set) (tree.Entry, error) {
+	r.m.Lock()
+	defer r.m.Unlock()
 	// Validate input
 
 	id, err := r.FindFree()
 	if err != nil {
 		return nil, err
 	}
-	if err := r.Claim(uint64(id), labels); err != nil {
+	if err := r.claim(uint64(id), labels); err != nil {
 		return nil, err
 	}
 	treeId := id16.NewID(uint16(id), id16.IDBitSize)
@@ -77,6 +89,8 @@ func (r *table16) ClaimFree(labels labels.Set) (tree.Entry, error) {
 }
 
 func (r *table16) Release(id uint64) error {
+	r.m.Lock()
+	defer r.m.Unlock()
 	// Validate input
 	if err := r.validateID(id); err != nil {
 		return err
diff --git a/pkg/table/table32/table32.go b/pkg/table/table32/table32.go
index 0818915..82827dc 100644
--- a/pkg/table/table32/table32.go
+++ b/pkg/table/table32/table32.go
@@ -2,6 +2,7 @@ package table32
 
 import (
 	"fmt"
+	"sync"
 
 	"github.com/henderiw/idxtable/pkg/idxtable"
 	"github.com/henderiw/idxtable/pkg/table"
@@ -13,6 +14,7 @@ import (
 func New(start, end uint32) table.Table {
 	return &table32{
 		table: newTable(start, end),
+		m:     new(sync.Mutex),
 		start: start,
 		end:   end,
 	}
@@ -26,6 +28,7 @@ func newTable(start, end uint32) idxtable.Table[tree.Entry] {
 }
 
 type table32 struct {
+	m     *sync.Mutex // makes finding and claiming a free id one step
 	table idxtable.Table[tree.Entry]
 	start uint32
 	end   uint32
@@ -47,6 +50,13 @@ func (r *table32) Get(id uint64) (tree.Entry, error) {
 }
 
 func (r *table32) Claim(id uint64, labels labels.Set) error {
+	r.m.Lock()
+	defer r.m.Unlock()
+
+	return r.claim(id, labels)
+}
+
+func (r *table32) claim(id uint64, labels labels.Set) error {
 	// Validate input
 	if err := r.validateID(id); err != nil {
 		return err
@@ -62,13 +72,15 @@ func (r *table32) Claim(id uint64, labels labels.Set) error {
 }
 
 func (r *table32) ClaimFree(labels labels.Set) (tree.Entry, error) {
+	r.m.Lock()
+	defer r.m.Unlock()
 	// Validate input
 
 	id, err := r.FindFree()
 	if err != nil {
 		return nil, err
 	}
-	if err := r.Claim(id, labels); err != nil {
+	if err := r.claim(id, labels); err != nil {
 		return nil, err
 	}
 	treeId := id32.NewID(uint32(id), id32.IDBitSize)
@@ -77,6 +89,8 @@ func (r *table32) ClaimFree(labels labels.Set) (tree.Entry, error) {
 }
 
 func (r *table32) Release(id uint64) error {
+	r.m.Lock()
+	defer r.m.Unlock()
 	// Validate input
 	if err := r.validateID(id); err != nil {
 		return err
diff --git a/pkg/table/table64/table64.go b/pkg/table/table64/table64.go
index 872e95e..54152fa 100644
--- a/pkg/table/table64/table64.go
+++ b/pkg/table/table64/table64.go
@@ -2,6 +2,7 @@ package table64
 
 import (
 	"fmt"
+	"sync"
 
 	"github.com/henderiw/idxtable/pkg/idxtable"
 	"github.com/henderiw/idxtable/pkg/table"
@@ -13,6 +14,7 @@ import (
 func New(start, end uint64) table.Table {
 	return &table64{
 		table: newTable(start, end),
+		m:     new(sync.Mutex),
 		start: start,
 		end:   end,
 	}
@@ -26,6 +28,7 @@ func newTable(start, end uint64) idxtable.Table[tree.Entry] {
 }
 
 type table64 struct {
+	m     *sync.Mutex // makes finding and claiming a free id one step
 	table idxtable.Table[tree.Entry]
 	start uint64
 	end   uint64
@@ -47,6 +50,13 @@ func (r *table64) Get(id uint64) (tree.Entry, error) {
 }
 
 func (r *table64) Claim(id uint64, labels labels.Set) error {
+	r.m.Lock()
+	defer r.m.Unlock()
+
+	return r.claim(id, labels)
+}
+
+func (r *table64) claim(id uint64, labels labels.Set) error {
 	// Validate input
 	if err := r.validateID(id); err != nil {
 		return err
@@ -62,13 +72,15 @@ func (r *table64) Claim(id uint64, labels labels.Set) error {
 }
 
 func (r *table64) ClaimFree(labels labels.Set) (tree.Entry, error) {
+	r.m.Lock()
+	defer r.m.Unlock()
 	// Validate input
 
 	id, err := r.FindFree()
 	if err != nil {
 		return nil, err
 	}
-	if err := r.Claim(id, labels); err != nil {
+	if err := r.claim(id, labels); err != nil {
 		return nil, err
 	}
 	treeId := id64.NewID(uint64(id), id64.IDBitSize)
@@ -77,6 +89,8 @@ func (r *table64) ClaimFree(labels labels.Set) (tree.Entry, error) {
 }
 
 func (r *table64) Release(id uint64) error {
+	r.m.Lock()
+	defer r.m.Unlock()
 	// Validate input
 	if err := r.validateID(id); err != nil {
 		return err
-- 
2.43.0


From 192a341a597167402992d1cdb921073d8623d26d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:55:55 +0000
Subject: [PATCH 10/24] fix: tree: values of different nodes must not share a
 key

The key of a node's values was its index shifted by the id length: for 64-bit ids
the index is shifted out completely and all nodes of a tree64 share one value, so
every claim overwrote all earlier ones; for 16-bit ids 2^16 values of one node run
into the next node's.
---
 pkg/tree/tree.go | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/pkg/tree/tree.go b/pkg/tree/tree.go
index 75d62d0..0b4c3ee 100644
--- a/pkg/tree/tree.go
+++ b/pkg/tree/tree.go
@@ -78,12 +78,17 @@ func (r *Tree[T]) Clone() *Tree[T] {
 	return ret
 }
 
+// valKey returns the key in vals of the first val of a node
+func valKey(nodeIndex uint) uint64 {
+	return uint64(nodeIndex) << 32
+}
+
 // add a tag to the node at the input index
 // - if matchFunc is non-nil, it is used to determine equality (if nil, no existing tag match)
 // - if udpateFunc is non-nil, it is used to update the tag if it already exists (if nil, the provided tag is used)
 // - returns whether the tag count was increased
 func (r *Tree[T]) addVal(val T, nodeIndex uint, matchFunc MatchesFunc[T], updateFunc UpdatesFunc[T]) bool {
-	key := (uint64(nodeIndex) << uint64(r.length))
+	key := valKey(nodeIndex)
 	valCount := r.nodes[nodeIndex].ValCount
 	if matchFunc != nil {
 		// need to check if this value already exists
@@ -103,8 +108,8 @@ func (r *Tree[T]) addVal(val T, nodeIndex uint, matchFunc MatchesFunc[T], update
 
 func (r *Tree[T]) moveTags(fromIndex uint, toIndex uint) {
 	tagCount := r.nodes[fromIndex].ValCount
-	fromKey := uint64(fromIndex) << uint64(r.length)
-	toKey := uint64(toIndex) << uint64(r.length)
+	fromKey := valKey(fromIndex)
+	toKey := valKey(toIndex)
 	for i := 0; i < tagCount; i++ {
 		r.vals[toKey+uint64(i)] = r.vals[fromKey+uint64(i)]
 		delete(r.vals, fromKey+uint64(i))
@@ -123,7 +128,7 @@ func (r *Tree[T]) valsForNode(ret []T, nodeIndex uint, filterFunc FilterFunc[T])
 
 	// TODO: clean up the typing in here, between uint, uint64
 	valCount := r.nodes[nodeIndex].ValCount
-	key := uint64(nodeIndex) << uint64(r.length)
+	key := valKey(nodeIndex)
 	for i := 0; i < valCount; i++ {
 		tag := r.vals[key+uint64(i)]
 		if filterFunc == nil || filterFunc(tag) {
@@ -146,7 +151,7 @@ func (r *Tree[T]) deleteVal(buf []T, nodeIndex uint, matchTag T, matchFunc Match
 	// delete tags
 	// TODO: this could be done smarter - delete in place?
 	for i := 0; i < r.nodes[nodeIndex].ValCount; i++ {
-		delete(r.vals, (uint64(nodeIndex)<<uint64(r.length))+uint64(i))
+		delete(r.vals, valKey(nodeIndex)+uint64(i))
 	}
 	r.nodes[nodeIndex].ValCount = 0
 
-- 
2.43.0


From e35fe0976eefe3ab7070b3bb37b3c996ce73cbaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:55:56 +0000
Subject: [PATCH 11/24] fix: tree: Clone must copy the name, bit function and
 length of the tree

A clone had no isLeftBitSetFn and id length 0: adding to it crashed with a nil
dereference and deleting from it panicked or corrupted the prefixes.
---
 pkg/tree/tree.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pkg/tree/tree.go b/pkg/tree/tree.go
index 0b4c3ee..79e21c3 100644
--- a/pkg/tree/tree.go
+++ b/pkg/tree/tree.go
@@ -65,6 +65,9 @@ func NewTree[T any](name string, isLeftBitSetFn IsLeftBitSetFn, length uint8) *T
 // - Note: the items in the tree are not deep copied
 func (r *Tree[T]) Clone() *Tree[T] {
 	ret := &Tree[T]{
+		name:             r.name,
+		isLeftBitSetFn:   r.isLeftBitSetFn,
+		length:           r.length,
 		nodes:            make([]treeNode[T], len(r.nodes), cap(r.nodes)),
 		availableIndexes: make([]uint, len(r.availableIndexes), cap(r.availableIndexes)),
 		vals:             make(map[uint64]T, len(r.vals)),
-- 
2.43.0


From efbb0dd6ed6f7b6ce523875a529bbd3c6fdfa107 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:55:56 +0000
Subject: [PATCH 12/24] fix: tree: Delete must keep every value it was not
 asked to delete

The kept values were put back with the match function of the delete, which drops
each one that matches another kept value.
---
 pkg/tree/tree.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/tree/tree.go b/pkg/tree/tree.go
index 79e21c3..165d454 100644
--- a/pkg/tree/tree.go
+++ b/pkg/tree/tree.go
@@ -166,7 +166,7 @@ func (r *Tree[T]) deleteVal(buf []T, nodeIndex uint, matchTag T, matchFunc Match
 			deleteCount++
 		} else {
 			// doesn't match - get to keep it
-			r.addVal(tag, nodeIndex, matchFunc, nil)
+			r.addVal(tag, nodeIndex, nil, nil)
 			keepCount++
 		}
 	}
-- 
2.43.0


From 2a8aaa5823975e3171ba42a79fce0f2f7e4316e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:56:17 +0000
Subject: [PATCH 13/24] fix: id16/32/64: the id after the last one is the zero
 id

addOne added the carry back to the sum, so Next of the last id was 1 instead of the
zero value it documents. mergeRanges relies on it: a range that ends at the last id
was taken as adjacent to one that starts at 1, and the set lost ids.
---
 pkg/tree/id16/myuint16.go | 4 ++--
 pkg/tree/id32/myuint32.go | 4 ++--
 pkg/tree/id64/myuint64.go | 4 ++--
 3 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/pkg/tree/id16/myuint16.go b/pkg/tree/id16/myuint16.go
index e1a2812..e6c35d3 100644
--- a/pkg/tree/id16/myuint16.go
+++ b/pkg/tree/id16/myuint16.go
@@ -32,8 +32,8 @@ func (u myuint16) subOne() myuint16 {
 
 // addOne returns u + 1.
 func (u myuint16) addOne() myuint16 {
-	lo, carry := Add16(uint16(u), 1, 0)
-	return myuint16(lo + carry)
+	lo, _ := Add16(uint16(u), 1, 0)
+	return myuint16(lo)
 }
 
 // Sub32 returns the difference of x, y and borrow, diff = x - y - borrow.
diff --git a/pkg/tree/id32/myuint32.go b/pkg/tree/id32/myuint32.go
index 447664b..18e0018 100644
--- a/pkg/tree/id32/myuint32.go
+++ b/pkg/tree/id32/myuint32.go
@@ -34,8 +34,8 @@ func (u myuint32) subOne() myuint32 {
 
 // addOne returns u + 1.
 func (u myuint32) addOne() myuint32 {
-	lo, carry := bits.Add32(uint32(u), 1, 0)
-	return myuint32(lo + carry)
+	lo, _ := bits.Add32(uint32(u), 1, 0)
+	return myuint32(lo)
 }
 
 // bitsSetFrom returns a copy of u with the given bit
diff --git a/pkg/tree/id64/myuint64.go b/pkg/tree/id64/myuint64.go
index 4aebcda..851da5d 100644
--- a/pkg/tree/id64/myuint64.go
+++ b/pkg/tree/id64/myuint64.go
@@ -34,8 +34,8 @@ func (u myuint64) subOne() myuint64 {
 
 // addOne returns u + 1.
 func (u myuint64) addOne() myuint64 {
-	lo, carry := bits.Add64(uint64(u), 1, 0)
-	return myuint64(lo + carry)
+	lo, _ := bits.Add64(uint64(u), 1, 0)
+	return myuint64(lo)
 }
 
 // bitsSetFrom returns a copy of u with the given bit
-- 
2.43.0


From 6670868131d1014e154031e66494302a45c78531 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:56:17 +0000
Subject: [PATCH 14/24] fix: id64: mask, step and decompose over all 64 bits

Mask rejected lengths above 32, so Masked returned nil for them; the mask of length
0 kept the upper 32 bits; and Prev dropped the upper 32 bits of the id. Prefixes
longer than 32 bits could not be added to or removed from a set, and sets and range
decompositions were wrong.
---
 pkg/tree/id64/id64.go     | 4 ++--
 pkg/tree/id64/myuint64.go | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/pkg/tree/id64/id64.go b/pkg/tree/id64/id64.go
index 6ac19b5..2f5fbb3 100644
--- a/pkg/tree/id64/id64.go
+++ b/pkg/tree/id64/id64.go
@@ -129,8 +129,8 @@ func (id myid64) Prev() tree.ID {
 // Prev returns the ID before id.
 // If there is none, it returns the ID zero value.
 func (id myid64) Mask(l uint8) (tree.ID, error) {
-	if l > 32 {
-		return nil, fmt.Errorf("length is too large, max 32, got: %d", l)
+	if l > IDBitSize {
+		return nil, fmt.Errorf("length is too large, max %d, got: %d", IDBitSize, l)
 	}
 	newid := uint64(myuint64(id.id).and(myuint64(mask6[uint32(l)])))
 	return myid64{id: newid, length: l}, nil
diff --git a/pkg/tree/id64/myuint64.go b/pkg/tree/id64/myuint64.go
index 851da5d..6c3fa05 100644
--- a/pkg/tree/id64/myuint64.go
+++ b/pkg/tree/id64/myuint64.go
@@ -28,7 +28,7 @@ func (u myuint64) not() myuint64 {
 
 // subOne returns u - 1.
 func (u myuint64) subOne() myuint64 {
-	lo, borrow := bits.Sub32(uint32(u), 1, 0)
+	lo, borrow := bits.Sub64(uint64(u), 1, 0)
 	return myuint64(lo - borrow)
 }
 
@@ -51,7 +51,7 @@ func (u myuint64) bitsClearedFrom(bit uint8) myuint64 {
 }
 
 var mask6 = [...]uint64{
-	0xffffffff00000000, //0
+	0x0000000000000000, //0
 	0x8000000000000000, //1
 	0xc000000000000000, //2
 	0xe000000000000000, //3
-- 
2.43.0


From 5c40fe0a3aa9fff643424cbe6d1da4d479af4964 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:56:18 +0000
Subject: [PATCH 15/24] fix: id16/32/64: the zero range is not valid instead of
 a crash

RangeOfID returns the zero range for an id with an invalid length, and IDSetBuilder
asks it whether it is valid to report an error; IsValid dereferenced its nil bounds.
---
 pkg/tree/id16/range16.go | 3 ++-
 pkg/tree/id32/range32.go | 3 ++-
 pkg/tree/id64/range64.go | 3 ++-
 3 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/pkg/tree/id16/range16.go b/pkg/tree/id16/range16.go
index 5032855..2f0ae1d 100644
--- a/pkg/tree/id16/range16.go
+++ b/pkg/tree/id16/range16.go
@@ -64,7 +64,8 @@ func (r r16) String() string {
 }
 
 func (r r16) IsValid() bool {
-	return r.from.Length() == r.to.Length() &&
+	return r.from != nil && r.to != nil &&
+		r.from.Length() == r.to.Length() &&
 		!(r.to.ID() < r.From().ID())
 }
 
diff --git a/pkg/tree/id32/range32.go b/pkg/tree/id32/range32.go
index cee6b89..f75a11f 100644
--- a/pkg/tree/id32/range32.go
+++ b/pkg/tree/id32/range32.go
@@ -64,7 +64,8 @@ func (r r32) String() string {
 }
 
 func (r r32) IsValid() bool {
-	return r.from.Length() == r.to.Length() &&
+	return r.from != nil && r.to != nil &&
+		r.from.Length() == r.to.Length() &&
 		!(r.to.ID() < r.From().ID())
 }
 
diff --git a/pkg/tree/id64/range64.go b/pkg/tree/id64/range64.go
index 6408f69..e7ee6d1 100644
--- a/pkg/tree/id64/range64.go
+++ b/pkg/tree/id64/range64.go
@@ -64,7 +64,8 @@ func (r r64) String() string {
 }
 
 func (r r64) IsValid() bool {
-	return r.from.Length() == r.to.Length() &&
+	return r.from != nil && r.to != nil &&
+		r.from.Length() == r.to.Length() &&
 		!(r.to.ID() < r.From().ID())
 }
 
-- 
2.43.0


From 3e8146dede1fca8df7a3c8628a6559cbb450bc4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:56:19 +0000
Subject: [PATCH 16/24] fix: id16/32/64: merge adjacent ranges whatever the
 type of their bounds

The ids listed by a range are pointers, those of a parsed range values. Comparing
the two with == never matches, so ranges set to such a bound were not merged with
the range they touch.
---
 pkg/tree/id16/range16.go | 2 +-
 pkg/tree/id32/range32.go | 2 +-
 pkg/tree/id64/range64.go | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/pkg/tree/id16/range16.go b/pkg/tree/id16/range16.go
index 2f0ae1d..f7c3d0f 100644
--- a/pkg/tree/id16/range16.go
+++ b/pkg/tree/id16/range16.go
@@ -184,7 +184,7 @@ func mergeRanges(rr []tree.Range) (out []tree.Range, valid bool) {
 			// Invalid ranges make no sense to merge, refuse to
 			// perform.
 			return nil, false
-		case (*prev).To().Next() == r.From():
+		case (*prev).To().Next().Compare(r.From()) == 0:
 			// prev and r touch, merge them.
 			//
 			//   prev     r
diff --git a/pkg/tree/id32/range32.go b/pkg/tree/id32/range32.go
index f75a11f..f4731ef 100644
--- a/pkg/tree/id32/range32.go
+++ b/pkg/tree/id32/range32.go
@@ -185,7 +185,7 @@ func mergeRanges(rr []tree.Range) (out []tree.Range, valid bool) {
 			// Invalid ranges make no sense to merge, refuse to
 			// perform.
 			return nil, false
-		case (*prev).To().Next() == r.From():
+		case (*prev).To().Next().Compare(r.From()) == 0:
 			// prev and r touch, merge them.
 			//
 			//   prev     r
diff --git a/pkg/tree/id64/range64.go b/pkg/tree/id64/range64.go
index e7ee6d1..41731cc 100644
--- a/pkg/tree/id64/range64.go
+++ b/pkg/tree/id64/range64.go
@@ -185,7 +185,7 @@ func mergeRanges(rr []tree.Range) (out []tree.Range, valid bool) {
 			// Invalid ranges make no sense to merge, refuse to
 			// perform.
 			return nil, false
-		case (*prev).To().Next() == r.From():
+		case (*prev).To().Next().Compare(r.From()) == 0:
 			// prev and r touch, merge them.
 			//
 			//   prev     r
-- 
2.43.0


From 208229e88519f794f18de81a58ba5af58967bf5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:56:19 +0000
Subject: [PATCH 17/24] fix: tree: entries with different labels are not equal

The printed form of labels is ambiguous: {a: "1,b=2"} and {a: "1", b: "2"} print the
same.
---
 pkg/tree/entry.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/tree/entry.go b/pkg/tree/entry.go
index 26b342c..d03789c 100644
--- a/pkg/tree/entry.go
+++ b/pkg/tree/entry.go
@@ -25,7 +25,7 @@ func (r entry) String() string     { return fmt.Sprintf("id: %d, labels: %s", r.
 func (r entry) Equal(e2 Entry) bool {
 	if r.ID().ID() == e2.ID().ID() &&
 		r.ID().Length() == e2.ID().Length() &&
-		r.labels.String() == e2.Labels().String() {
+		labels.Equals(r.labels, e2.Labels()) {
 		return true
 	}
 	return false
-- 
2.43.0


From ce7820ca2ce070ec07288abcea19e59227f4d09f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:57:05 +0000
Subject: [PATCH 18/24] fix: tree16/32/64: Get, Children and Parents must not
 take the read lock twice

They held the read lock and called Iterate, which takes it again. With a writer
queued in between, sync.RWMutex blocks the second RLock forever.
---
 pkg/tree/tree16/tree16.go | 10 +++++++---
 pkg/tree/tree32/tree32.go | 10 +++++++---
 pkg/tree/tree64/tree64.go | 10 +++++++---
 3 files changed, 21 insertions(+), 9 deletions(-)

diff --git a/pkg/tree/tree16/tree16.go b/pkg/tree/tree16/tree16.go
index db8d0cd..a4b8170 100644
--- a/pkg/tree/tree16/tree16.go
+++ b/pkg/tree/tree16/tree16.go
@@ -44,7 +44,7 @@ func (r *tree16) Get(id tree.ID) (tree.Entry, error) {
 	r.m.RLock()
 	defer r.m.RUnlock()
 
-	iter := r.Iterate()
+	iter := r.iterate()
 	for iter.Next() {
 		if iter.Entry().ID().ID() == id.ID() &&
 			iter.Entry().ID().Length() == id.Length() {
@@ -178,7 +178,7 @@ func (r *tree16) Children(id tree.ID) tree.Entries {
 	r.m.RLock()
 	defer r.m.RUnlock()
 
-	iter := r.Iterate()
+	iter := r.iterate()
 
 	for iter.Next() {
 		entry := iter.Entry()
@@ -195,7 +195,7 @@ func (r *tree16) Parents(id tree.ID) tree.Entries {
 	r.m.RLock()
 	defer r.m.RUnlock()
 
-	iter := r.Iterate()
+	iter := r.iterate()
 	for iter.Next() {
 		entry := iter.Entry()
 		if entry.ID().Overlaps(id) && entry.ID().Length() < id16.IDBitSize {
@@ -244,6 +244,10 @@ func (r *tree16) Iterate() *gtree.GTreeIterator {
 	r.m.RLock()
 	defer r.m.RUnlock()
 
+	return r.iterate()
+}
+
+func (r *tree16) iterate() *gtree.GTreeIterator {
 	return &gtree.GTreeIterator{
 		Iter: r.tree.Iterate(),
 	}
diff --git a/pkg/tree/tree32/tree32.go b/pkg/tree/tree32/tree32.go
index a631a09..e7513e5 100644
--- a/pkg/tree/tree32/tree32.go
+++ b/pkg/tree/tree32/tree32.go
@@ -42,7 +42,7 @@ func (r *tree32) Get(id tree.ID) (tree.Entry, error) {
 	r.m.RLock()
 	defer r.m.RUnlock()
 
-	iter := r.Iterate()
+	iter := r.iterate()
 	for iter.Next() {
 		if iter.Entry().ID().ID() == id.ID() &&
 			iter.Entry().ID().Length() == id.Length() {
@@ -177,7 +177,7 @@ func (r *tree32) Children(id tree.ID) tree.Entries {
 	r.m.RLock()
 	defer r.m.RUnlock()
 
-	iter := r.Iterate()
+	iter := r.iterate()
 
 	for iter.Next() {
 		entry := iter.Entry()
@@ -194,7 +194,7 @@ func (r *tree32) Parents(id tree.ID) tree.Entries {
 	r.m.RLock()
 	defer r.m.RUnlock()
 
-	iter := r.Iterate()
+	iter := r.iterate()
 	for iter.Next() {
 		entry := iter.Entry()
 		if entry.ID().Overlaps(id) && entry.ID().Length() < id32.IDBitSize {
@@ -243,6 +243,10 @@ func (r *tree32) Iterate() *gtree.GTreeIterator {
 	r.m.RLock()
 	defer r.m.RUnlock()
 
+	return r.iterate()
+}
+
+func (r *tree32) iterate() *gtree.GTreeIterator {
 	return &gtree.GTreeIterator{
 		Iter: r.tree.Iterate(),
 	}
diff --git a/pkg/tree/tree64/tree64.go b/pkg/tree/tree64/tree64.go
index 769c939..b61a13d 100644
--- a/pkg/tree/tree64/tree64.go
+++ b/pkg/tree/tree64/tree64.go
@@ -42,7 +42,7 @@ func (r *tree64) Get(id tree.ID) (tree.Entry, error) {
 	r.m.RLock()
 	defer r.m.RUnlock()
 
-	iter := r.Iterate()
+	iter := r.iterate()
 	for iter.Next() {
 		if iter.Entry().ID().ID() == id.ID() &&
 			iter.Entry().ID().Length() == id.Length() {
@@ -178,7 +178,7 @@ func (r *tree64) Children(id tree.ID) tree.Entries {
 	r.m.RLock()
 	defer r.m.RUnlock()
 
-	iter := r.Iterate()
+	iter := r.iterate()
 
 	for iter.Next() {
 		entry := iter.Entry()
@@ -195,7 +195,7 @@ func (r *tree64) Parents(id tree.ID) tree.Entries {
 	r.m.RLock()
 	defer r.m.RUnlock()
 
-	iter := r.Iterate()
+	iter := r.iterate()
 	for iter.Next() {
 		entry := iter.Entry()
 		if entry.ID().Overlaps(id) && entry.ID().Length() < id64.IDBitSize {
@@ -244,6 +244,10 @@ func (r *tree64) Iterate() *gtree.GTreeIterator {
 	r.m.RLock()
 	defer r.m.RUnlock()
 
+	return r.iterate()
+}
+
+func (r *tree64) iterate() *gtree.GTreeIterator {
 	return &gtree.GTreeIterator{
 		Iter: r.tree.Iterate(),
 	}
-- 
2.43.0


From c73cdf0240263e2a4876655ff27ce3a676c0b4e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:57:05 +0000
Subject: [PATCH 19/24] fix: tree16/32/64: every operation is one step under
 the lock

GetByLabel, GetAll, Size, Clone and the printers walked the tree and ClaimRange
modified it without the lock: data races and crashes next to any writer. ClaimFree,
ReleaseID and ReleaseByLabel took the lock only for their second half: two ClaimFree
calls could return the same id, a release missed an entry that was updated in
between.
---
 pkg/tree/tree16/tree16.go | 57 ++++++++++++++++++++++++++++++---------
 pkg/tree/tree32/tree32.go | 56 +++++++++++++++++++++++++++++---------
 pkg/tree/tree64/tree64.go | 56 +++++++++++++++++++++++++++++---------
 3 files changed, 133 insertions(+), 36 deletions(-)

diff --git a/pkg/tree/tree16/tree16.go b/pkg/tree/tree16/tree16.go
index a4b8170..04147dc 100644
--- a/pkg/tree/tree16/tree16.go
+++ b/pkg/tree/tree16/tree16.go
@@ -32,6 +32,9 @@ type tree16 struct {
 }
 
 func (r *tree16) Clone() gtree.GTree {
+	r.m.RLock()
+	defer r.m.RUnlock()
+
 	return &tree16{
 		m:      new(sync.RWMutex),
 		tree:   r.tree.Clone(),
@@ -44,6 +47,10 @@ func (r *tree16) Get(id tree.ID) (tree.Entry, error) {
 	r.m.RLock()
 	defer r.m.RUnlock()
 
+	return r.get(id)
+}
+
+func (r *tree16) get(id tree.ID) (tree.Entry, error) {
 	iter := r.iterate()
 	for iter.Next() {
 		if iter.Entry().ID().ID() == id.ID() &&
@@ -77,12 +84,13 @@ func (r *tree16) ClaimID(id tree.ID, labels labels.Set) error {
 }
 
 func (r *tree16) ClaimFree(labels labels.Set) (tree.Entry, error) {
+	r.m.Lock()
+	defer r.m.Unlock()
+
 	id, err := r.findFree()
 	if err != nil {
 		return nil, fmt.Errorf("no free ids available, err: %s", err.Error())
 	}
-	r.m.Lock()
-	defer r.m.Unlock()
 	treeId := id16.NewID(uint16(id), id16.IDBitSize)
 	treeEntry := tree.NewEntry(treeId.Copy(), labels)
 	if err := r.set(treeId, treeEntry); err != nil {
@@ -96,6 +104,8 @@ func (r *tree16) ClaimRange(s string, labels labels.Set) error {
 	if err != nil {
 		return err
 	}
+	r.m.Lock()
+	defer r.m.Unlock()
 	// TODO check if free
 
 	// get each entry and validate owner
@@ -120,7 +130,7 @@ func (r *tree16) findFree() (uint16, error) {
 	bldr.AddId(rootID)
 
 
-	for _, e := range r.Children(rootID) {
+	for _, e := range r.children(rootID) {
 		bldr.RemoveId(e.ID())
 	}
 	ipset, err := bldr.IPSet()
@@ -142,21 +152,20 @@ func (r *tree16) ReleaseID(id tree.ID) error {
 	if err := r.validate(id); err != nil {
 		return err
 	}
-	e, err := r.Get(id)
+	r.m.Lock()
+	defer r.m.Unlock()
+	e, err := r.get(id)
 	if err != nil {
 		return nil
 	}
-	r.m.Lock()
-	defer r.m.Unlock()
 	return r.del(id, e)
 }
 
 func (r *tree16) ReleaseByLabel(selector labels.Selector) error {
-	entries := r.GetByLabel(selector)
-
 	r.m.Lock()
 	defer r.m.Unlock()
 
+	entries := r.getByLabel(selector)
 	for _, e := range entries {
 		if err := r.del(e.ID().Copy(), e); err != nil {
 			return err
@@ -174,10 +183,15 @@ func (r *tree16) del(id tree.ID, e tree.Entry) error {
 }
 
 func (r *tree16) Children(id tree.ID) tree.Entries {
-	entries := tree.Entries{}
 	r.m.RLock()
 	defer r.m.RUnlock()
 
+	return r.children(id)
+}
+
+func (r *tree16) children(id tree.ID) tree.Entries {
+	entries := tree.Entries{}
+
 	iter := r.iterate()
 
 	for iter.Next() {
@@ -206,9 +220,16 @@ func (r *tree16) Parents(id tree.ID) tree.Entries {
 }
 
 func (r *tree16) GetByLabel(selector labels.Selector) tree.Entries {
+	r.m.RLock()
+	defer r.m.RUnlock()
+
+	return r.getByLabel(selector)
+}
+
+func (r *tree16) getByLabel(selector labels.Selector) tree.Entries {
 	entries := tree.Entries{}
 
-	iter := r.Iterate()
+	iter := r.iterate()
 	for iter.Next() {
 		if selector.Matches(iter.Entry().Labels()) {
 			entries = append(entries, iter.Entry())
@@ -219,9 +240,12 @@ func (r *tree16) GetByLabel(selector labels.Selector) tree.Entries {
 }
 
 func (r *tree16) GetAll() tree.Entries {
+	r.m.RLock()
+	defer r.m.RUnlock()
+
 	entries := tree.Entries{}
 
-	iter := r.Iterate()
+	iter := r.iterate()
 	for iter.Next() {
 		entries = append(entries, iter.Entry())
 	}
@@ -230,9 +254,12 @@ func (r *tree16) GetAll() tree.Entries {
 }
 
 func (r *tree16) Size() int {
+	r.m.RLock()
+	defer r.m.RUnlock()
+
 	var size int
 
-	iter := r.Iterate()
+	iter := r.iterate()
 	for iter.Next() {
 		size++
 	}
@@ -264,9 +291,15 @@ func (r *tree16) validate(id tree.ID) error {
 }
 
 func (r *tree16) PrintNodes() {
+	r.m.RLock()
+	defer r.m.RUnlock()
+
 	r.tree.PrintNodes(0)
 }
 
 func (r *tree16) PrintValues() {
+	r.m.RLock()
+	defer r.m.RUnlock()
+
 	r.tree.PrintValues()
 }
\ No newline at end of file
diff --git a/pkg/tree/tree32/tree32.go b/pkg/tree/tree32/tree32.go
index e7513e5..a828696 100644
--- a/pkg/tree/tree32/tree32.go
+++ b/pkg/tree/tree32/tree32.go
@@ -30,6 +30,9 @@ type tree32 struct {
 }
 
 func (r *tree32) Clone() gtree.GTree {
+	r.m.RLock()
+	defer r.m.RUnlock()
+
 	return &tree32{
 		m:      new(sync.RWMutex),
 		tree:   r.tree.Clone(),
@@ -42,6 +45,10 @@ func (r *tree32) Get(id tree.ID) (tree.Entry, error) {
 	r.m.RLock()
 	defer r.m.RUnlock()
 
+	return r.get(id)
+}
+
+func (r *tree32) get(id tree.ID) (tree.Entry, error) {
 	iter := r.iterate()
 	for iter.Next() {
 		if iter.Entry().ID().ID() == id.ID() &&
@@ -75,6 +82,8 @@ func (r *tree32) ClaimID(id tree.ID, labels labels.Set) error {
 }
 
 func (r *tree32) ClaimFree(labels labels.Set) (tree.Entry, error) {
+	r.m.Lock()
+	defer r.m.Unlock()
 
 	id, err := r.findFree()
 	if err != nil {
@@ -83,8 +92,6 @@ func (r *tree32) ClaimFree(labels labels.Set) (tree.Entry, error) {
 
 	treeId := id32.NewID(uint32(id), id32.IDBitSize)
 	treeEntry := tree.NewEntry(treeId.Copy(), labels)
-	r.m.Lock()
-	defer r.m.Unlock()
 	if err := r.set(treeId, treeEntry); err != nil {
 		return nil, err
 	}
@@ -96,6 +103,8 @@ func (r *tree32) ClaimRange(s string, labels labels.Set) error {
 	if err != nil {
 		return err
 	}
+	r.m.Lock()
+	defer r.m.Unlock()
 	// TODO check if free
 
 	// get each entry and validate owner
@@ -119,7 +128,7 @@ func (r *tree32) findFree() (uint32, error) {
 	var bldr id32.IDSetBuilder
 	bldr.AddId(rootID)
 
-	for _, e := range r.Children(rootID) {
+	for _, e := range r.children(rootID) {
 		bldr.RemoveId(e.ID())
 	}
 	ipset, err := bldr.IPSet()
@@ -141,21 +150,20 @@ func (r *tree32) ReleaseID(id tree.ID) error {
 	if err := r.validate(id); err != nil {
 		return err
 	}
-	e, err := r.Get(id)
+	r.m.Lock()
+	defer r.m.Unlock()
+	e, err := r.get(id)
 	if err != nil {
 		return nil
 	}
-	r.m.Lock()
-	defer r.m.Unlock()
 	return r.del(id, e)
 }
 
 func (r *tree32) ReleaseByLabel(selector labels.Selector) error {
-	entries := r.GetByLabel(selector)
-
 	r.m.Lock()
 	defer r.m.Unlock()
 
+	entries := r.getByLabel(selector)
 	for _, e := range entries {
 		if err := r.del(e.ID().Copy(), e); err != nil {
 			return err
@@ -173,10 +181,15 @@ func (r *tree32) del(id tree.ID, e tree.Entry) error {
 }
 
 func (r *tree32) Children(id tree.ID) tree.Entries {
-	entries := tree.Entries{}
 	r.m.RLock()
 	defer r.m.RUnlock()
 
+	return r.children(id)
+}
+
+func (r *tree32) children(id tree.ID) tree.Entries {
+	entries := tree.Entries{}
+
 	iter := r.iterate()
 
 	for iter.Next() {
@@ -205,9 +218,16 @@ func (r *tree32) Parents(id tree.ID) tree.Entries {
 }
 
 func (r *tree32) GetByLabel(selector labels.Selector) tree.Entries {
+	r.m.RLock()
+	defer r.m.RUnlock()
+
+	return r.getByLabel(selector)
+}
+
+func (r *tree32) getByLabel(selector labels.Selector) tree.Entries {
 	entries := tree.Entries{}
 
-	iter := r.Iterate()
+	iter := r.iterate()
 	for iter.Next() {
 		if selector.Matches(iter.Entry().Labels()) {
 			entries = append(entries, iter.Entry())
@@ -218,9 +238,12 @@ func (r *tree32) GetByLabel(selector labels.Selector) tree.Entries {
 }
 
 func (r *tree32) GetAll() tree.Entries {
+	r.m.RLock()
+	defer r.m.RUnlock()
+
 	entries := tree.Entries{}
 
-	iter := r.Iterate()
+	iter := r.iterate()
 	for iter.Next() {
 		entries = append(entries, iter.Entry())
 	}
@@ -229,9 +252,12 @@ func (r *tree32) GetAll() tree.Entries {
 }
 
 func (r *tree32) Size() int {
+	r.m.RLock()
+	defer r.m.RUnlock()
+
 	var size int
 
-	iter := r.Iterate()
+	iter := r.iterate()
 	for iter.Next() {
 		size++
 	}
@@ -263,9 +289,15 @@ func (r *tree32) validate(id tree.ID) error {
 }
 
 func (r *tree32) PrintNodes() {
+	r.m.RLock()
+	defer r.m.RUnlock()
+
 	r.tree.PrintNodes(0)
 }
 
 func (r *tree32) PrintValues() {
+	r.m.RLock()
+	defer r.m.RUnlock()
+
 	r.tree.PrintValues()
 }
\ No newline at end of file
diff --git a/pkg/tree/tree64/tree64.go b/pkg/tree/tree64/tree64.go
index b61a13d..e64b70a 100644
--- a/pkg/tree/tree64/tree64.go
+++ b/pkg/tree/tree64/tree64.go
@@ -30,6 +30,9 @@ type tree64 struct {
 }
 
 func (r *tree64) Clone() gtree.GTree {
+	r.m.RLock()
+	defer r.m.RUnlock()
+
 	return &tree64{
 		m:      new(sync.RWMutex),
 		tree:   r.tree.Clone(),
@@ -42,6 +45,10 @@ func (r *tree64) Get(id tree.ID) (tree.Entry, error) {
 	r.m.RLock()
 	defer r.m.RUnlock()
 
+	return r.get(id)
+}
+
+func (r *tree64) get(id tree.ID) (tree.Entry, error) {
 	iter := r.iterate()
 	for iter.Next() {
 		if iter.Entry().ID().ID() == id.ID() &&
@@ -76,6 +83,8 @@ func (r *tree64) ClaimID(id tree.ID, labels labels.Set) error {
 }
 
 func (r *tree64) ClaimFree(labels labels.Set) (tree.Entry, error) {
+	r.m.Lock()
+	defer r.m.Unlock()
 
 	id, err := r.findFree()
 	if err != nil {
@@ -84,8 +93,6 @@ func (r *tree64) ClaimFree(labels labels.Set) (tree.Entry, error) {
 
 	treeId := id64.NewID(id, id64.IDBitSize)
 	treeEntry := tree.NewEntry(treeId.Copy(), labels)
-	r.m.Lock()
-	defer r.m.Unlock()
 	if err := r.set(treeId, treeEntry); err != nil {
 		return nil, err
 	}
@@ -97,6 +104,8 @@ func (r *tree64) ClaimRange(s string, labels labels.Set) error {
 	if err != nil {
 		return err
 	}
+	r.m.Lock()
+	defer r.m.Unlock()
 	// TODO check if free
 
 	// get each entry and validate owner
@@ -120,7 +129,7 @@ func (r *tree64) findFree() (uint64, error) {
 	var bldr id64.IDSetBuilder
 	bldr.AddId(rootID)
 
-	for _, e := range r.Children(rootID) {
+	for _, e := range r.children(rootID) {
 		bldr.RemoveId(e.ID())
 	}
 	ipset, err := bldr.IPSet()
@@ -142,21 +151,20 @@ func (r *tree64) ReleaseID(id tree.ID) error {
 	if err := r.validate(id); err != nil {
 		return err
 	}
-	e, err := r.Get(id)
+	r.m.Lock()
+	defer r.m.Unlock()
+	e, err := r.get(id)
 	if err != nil {
 		return nil
 	}
-	r.m.Lock()
-	defer r.m.Unlock()
 	return r.del(id, e)
 }
 
 func (r *tree64) ReleaseByLabel(selector labels.Selector) error {
-	entries := r.GetByLabel(selector)
-
 	r.m.Lock()
 	defer r.m.Unlock()
 
+	entries := r.getByLabel(selector)
 	for _, e := range entries {
 		if err := r.del(e.ID().Copy(), e); err != nil {
 			return err
@@ -174,10 +182,15 @@ func (r *tree64) del(id tree.ID, e tree.Entry) error {
 }
 
 func (r *tree64) Children(id tree.ID) tree.Entries {
-	entries := tree.Entries{}
 	r.m.RLock()
 	defer r.m.RUnlock()
 
+	return r.children(id)
+}
+
+func (r *tree64) children(id tree.ID) tree.Entries {
+	entries := tree.Entries{}
+
 	iter := r.iterate()
 
 	for iter.Next() {
@@ -206,9 +219,16 @@ func (r *tree64) Parents(id tree.ID) tree.Entries {
 }
 
 func (r *tree64) GetByLabel(selector labels.Selector) tree.Entries {
+	r.m.RLock()
+	defer r.m.RUnlock()
+
+	return r.getByLabel(selector)
+}
+
+func (r *tree64) getByLabel(selector labels.Selector) tree.Entries {
 	entries := tree.Entries{}
 
-	iter := r.Iterate()
+	iter := r.iterate()
 	for iter.Next() {
 		if selector.Matches(iter.Entry().Labels()) {
 			entries = append(entries, iter.Entry())
@@ -219,9 +239,12 @@ func (r *tree64) GetByLabel(selector labels.Selector) tree.Entries {
 }
 
 func (r *tree64) GetAll() tree.Entries {
+	r.m.RLock()
+	defer r.m.RUnlock()
+
 	entries := tree.Entries{}
 
-	iter := r.Iterate()
+	iter := r.iterate()
 	for iter.Next() {
 		entries = append(entries, iter.Entry())
 	}
@@ -230,9 +253,12 @@ func (r *tree64) GetAll() tree.Entries {
 }
 
 func (r *tree64) Size() int {
+	r.m.RLock()
+	defer r.m.RUnlock()
+
 	var size int
 
-	iter := r.Iterate()
+	iter := r.iterate()
 	for iter.Next() {
 		size++
 	}
@@ -264,9 +290,15 @@ func (r *tree64) validate(id tree.ID) error {
 }
 
 func (r *tree64) PrintNodes() {
+	r.m.RLock()
+	defer r.m.RUnlock()
+
 	r.tree.PrintNodes(1)
 }
 
 func (r *tree64) PrintValues() {
+	r.m.RLock()
+	defer r.m.RUnlock()
+
 	r.tree.PrintValues()
 }
-- 
2.43.0


From 4db2d77ead2fdefb3ec408bff7bbce38f54918e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:57:06 +0000
Subject: [PATCH 20/24] fix: tree32: ClaimFree searches the ids of the tree

The root prefix had the tree's bit size as its prefix length instead of the rest of
the 32 bits: a tree of 12 bits offered ids of a /12 and failed on ids beyond its
size, or ran out of ids early.
---
 pkg/tree/tree32/tree32.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/tree/tree32/tree32.go b/pkg/tree/tree32/tree32.go
index a828696..3962765 100644
--- a/pkg/tree/tree32/tree32.go
+++ b/pkg/tree/tree32/tree32.go
@@ -124,7 +124,7 @@ func (r *tree32) set(id tree.ID, e tree.Entry) error {
 }
 
 func (r *tree32) findFree() (uint32, error) {
-	rootID := id32.NewID(0, r.length)
+	rootID := id32.NewID(0, (id32.IDBitSize - r.length))
 	var bldr id32.IDSetBuilder
 	bldr.AddId(rootID)
 
-- 
2.43.0


From 82c8be49f23b56669ec653e4c594fd1c20b7cf9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:57:06 +0000
Subject: [PATCH 21/24] fix: tree16/32/64: ClaimFree must not hand out ids of a
 claimed root prefix

Only the entries strictly below the tree's root prefix were taken as used. With the
root prefix itself or a shorter one claimed, ClaimFree handed out ids inside it.
---
 pkg/tree/tree16/tree16.go | 9 +++------
 pkg/tree/tree32/tree32.go | 9 +++------
 pkg/tree/tree64/tree64.go | 9 +++------
 3 files changed, 9 insertions(+), 18 deletions(-)

diff --git a/pkg/tree/tree16/tree16.go b/pkg/tree/tree16/tree16.go
index 04147dc..2d6f3c0 100644
--- a/pkg/tree/tree16/tree16.go
+++ b/pkg/tree/tree16/tree16.go
@@ -130,8 +130,9 @@ func (r *tree16) findFree() (uint16, error) {
 	bldr.AddId(rootID)
 
 
-	for _, e := range r.children(rootID) {
-		bldr.RemoveId(e.ID())
+	iter := r.iterate()
+	for iter.Next() {
+		bldr.RemoveId(iter.Entry().ID())
 	}
 	ipset, err := bldr.IPSet()
 	if err != nil {
@@ -186,10 +187,6 @@ func (r *tree16) Children(id tree.ID) tree.Entries {
 	r.m.RLock()
 	defer r.m.RUnlock()
 
-	return r.children(id)
-}
-
-func (r *tree16) children(id tree.ID) tree.Entries {
 	entries := tree.Entries{}
 
 	iter := r.iterate()
diff --git a/pkg/tree/tree32/tree32.go b/pkg/tree/tree32/tree32.go
index 3962765..1c5e9cc 100644
--- a/pkg/tree/tree32/tree32.go
+++ b/pkg/tree/tree32/tree32.go
@@ -128,8 +128,9 @@ func (r *tree32) findFree() (uint32, error) {
 	var bldr id32.IDSetBuilder
 	bldr.AddId(rootID)
 
-	for _, e := range r.children(rootID) {
-		bldr.RemoveId(e.ID())
+	iter := r.iterate()
+	for iter.Next() {
+		bldr.RemoveId(iter.Entry().ID())
 	}
 	ipset, err := bldr.IPSet()
 	if err != nil {
@@ -184,10 +185,6 @@ func (r *tree32) Children(id tree.ID) tree.Entries {
 	r.m.RLock()
 	defer r.m.RUnlock()
 
-	return r.children(id)
-}
-
-func (r *tree32) children(id tree.ID) tree.Entries {
 	entries := tree.Entries{}
 
 	iter := r.iterate()
diff --git a/pkg/tree/tree64/tree64.go b/pkg/tree/tree64/tree64.go
index e64b70a..4af3fa1 100644
--- a/pkg/tree/tree64/tree64.go
+++ b/pkg/tree/tree64/tree64.go
@@ -129,8 +129,9 @@ func (r *tree64) findFree() (uint64, error) {
 	var bldr id64.IDSetBuilder
 	bldr.AddId(rootID)
 
-	for _, e := range r.children(rootID) {
-		bldr.RemoveId(e.ID())
+	iter := r.iterate()
+	for iter.Next() {
+		bldr.RemoveId(iter.Entry().ID())
 	}
 	ipset, err := bldr.IPSet()
 	if err != nil {
@@ -185,10 +186,6 @@ func (r *tree64) Children(id tree.ID) tree.Entries {
 	r.m.RLock()
 	defer r.m.RUnlock()
 
-	return r.children(id)
-}
-
-func (r *tree64) children(id tree.ID) tree.Entries {
 	entries := tree.Entries{}
 
 	iter := r.iterate()
-- 
2.43.0


From 72cb76e0b9e6b1130bacbb350f46e0d4af05f3a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:57:06 +0000
Subject: [PATCH 22/24] fix: tree16/32/64: ClaimRange rejects reversed ranges
 and ranges beyond the tree

A reversed range claimed ids outside of it, and a range could reach beyond the bit
size of the tree, where no other operation accepts an id.
---
 pkg/tree/tree16/tree16.go | 6 ++++++
 pkg/tree/tree32/tree32.go | 6 ++++++
 pkg/tree/tree64/tree64.go | 6 ++++++
 3 files changed, 18 insertions(+)

diff --git a/pkg/tree/tree16/tree16.go b/pkg/tree/tree16/tree16.go
index 2d6f3c0..6bde47d 100644
--- a/pkg/tree/tree16/tree16.go
+++ b/pkg/tree/tree16/tree16.go
@@ -104,6 +104,12 @@ func (r *tree16) ClaimRange(s string, labels labels.Set) error {
 	if err != nil {
 		return err
 	}
+	if !trange.IsValid() {
+		return fmt.Errorf("invalid range %q", s)
+	}
+	if err := r.validate(trange.To()); err != nil {
+		return err
+	}
 	r.m.Lock()
 	defer r.m.Unlock()
 	// TODO check if free
diff --git a/pkg/tree/tree32/tree32.go b/pkg/tree/tree32/tree32.go
index 1c5e9cc..2a2ade7 100644
--- a/pkg/tree/tree32/tree32.go
+++ b/pkg/tree/tree32/tree32.go
@@ -103,6 +103,12 @@ func (r *tree32) ClaimRange(s string, labels labels.Set) error {
 	if err != nil {
 		return err
 	}
+	if !vlanRange.IsValid() {
+		return fmt.Errorf("invalid range %q", s)
+	}
+	if err := r.validate(vlanRange.To()); err != nil {
+		return err
+	}
 	r.m.Lock()
 	defer r.m.Unlock()
 	// TODO check if free
diff --git a/pkg/tree/tree64/tree64.go b/pkg/tree/tree64/tree64.go
index 4af3fa1..a10148c 100644
--- a/pkg/tree/tree64/tree64.go
+++ b/pkg/tree/tree64/tree64.go
@@ -104,6 +104,12 @@ func (r *tree64) ClaimRange(s string, labels labels.Set) error {
 	if err != nil {
 		return err
 	}
+	if !treeRange.IsValid() {
+		return fmt.Errorf("invalid range %q", s)
+	}
+	if err := r.validate(treeRange.To()); err != nil {
+		return err
+	}
 	r.m.Lock()
 	defer r.m.Unlock()
 	// TODO check if free
-- 
2.43.0


From b9bba9ad79213f51044c476cdca0d4726f8ef232 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:57:07 +0000
Subject: [PATCH 23/24] fix: tree16/32/64: Parents lists only the entries that
 contain the id

It listed every overlapping entry shorter than the full length: for a prefix also the
prefix itself and the prefixes inside it.
---
 pkg/tree/tree16/tree16.go | 2 +-
 pkg/tree/tree32/tree32.go | 2 +-
 pkg/tree/tree64/tree64.go | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/pkg/tree/tree16/tree16.go b/pkg/tree/tree16/tree16.go
index 6bde47d..59f8a0b 100644
--- a/pkg/tree/tree16/tree16.go
+++ b/pkg/tree/tree16/tree16.go
@@ -215,7 +215,7 @@ func (r *tree16) Parents(id tree.ID) tree.Entries {
 	iter := r.iterate()
 	for iter.Next() {
 		entry := iter.Entry()
-		if entry.ID().Overlaps(id) && entry.ID().Length() < id16.IDBitSize {
+		if entry.ID().Overlaps(id) && entry.ID().Length() < id.Length() {
 			entries = append(entries, iter.Entry())
 		}
 	}
diff --git a/pkg/tree/tree32/tree32.go b/pkg/tree/tree32/tree32.go
index 2a2ade7..075f013 100644
--- a/pkg/tree/tree32/tree32.go
+++ b/pkg/tree/tree32/tree32.go
@@ -213,7 +213,7 @@ func (r *tree32) Parents(id tree.ID) tree.Entries {
 	iter := r.iterate()
 	for iter.Next() {
 		entry := iter.Entry()
-		if entry.ID().Overlaps(id) && entry.ID().Length() < id32.IDBitSize {
+		if entry.ID().Overlaps(id) && entry.ID().Length() < id.Length() {
 			entries = append(entries, iter.Entry())
 		}
 	}
diff --git a/pkg/tree/tree64/tree64.go b/pkg/tree/tree64/tree64.go
index a10148c..47ee501 100644
--- a/pkg/tree/tree64/tree64.go
+++ b/pkg/tree/tree64/tree64.go
@@ -214,7 +214,7 @@ func (r *tree64) Parents(id tree.ID) tree.Entries {
 	iter := r.iterate()
 	for iter.Next() {
 		entry := iter.Entry()
-		if entry.ID().Overlaps(id) && entry.ID().Length() < id64.IDBitSize {
+		if entry.ID().Overlaps(id) && entry.ID().Length() < id.Length() {
 			entries = append(entries, iter.Entry())
 		}
 	}
-- 
2.43.0


From e9e3def629a02561dc87c8311375972fcdfc386a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:57:07 +0000
Subject: [PATCH 24/24] fix: tree16/32/64: reject prefix lengths beyond the id
 width

The length check could never fail. An id with an invalid length was stored, and the
next ClaimFree or lookup crashed on it.
---
 pkg/tree/tree16/tree16.go | 4 ++--
 pkg/tree/tree32/tree32.go | 4 ++--
 pkg/tree/tree64/tree64.go | 4 ++--
 3 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/pkg/tree/tree16/tree16.go b/pkg/tree/tree16/tree16.go
index 59f8a0b..f5ec00d 100644
--- a/pkg/tree/tree16/tree16.go
+++ b/pkg/tree/tree16/tree16.go
@@ -287,8 +287,8 @@ func (r *tree16) validate(id tree.ID) error {
 	if id.ID() > uint64(r.size) {
 		return fmt.Errorf("max id allowed is %d, got %d", r.size, id.ID())
 	}
-	if id.Length() < uint8(0) {
-		return fmt.Errorf("min allowed length is %d, got %d", r.length, id.Length())
+	if id.Length() > id16.IDBitSize {
+		return fmt.Errorf("max allowed length is %d, got %d", id16.IDBitSize, id.Length())
 	}
 	return nil
 }
diff --git a/pkg/tree/tree32/tree32.go b/pkg/tree/tree32/tree32.go
index 075f013..1311839 100644
--- a/pkg/tree/tree32/tree32.go
+++ b/pkg/tree/tree32/tree32.go
@@ -285,8 +285,8 @@ func (r *tree32) validate(id tree.ID) error {
 	if id.ID() > uint64(r.size) {
 		return fmt.Errorf("max id allowed is %d, got %d", r.size, id.ID())
 	}
-	if id.Length() < uint8(0) {
-		return fmt.Errorf("min allowed length is %d, got %d", r.length, id.Length())
+	if id.Length() > id32.IDBitSize {
+		return fmt.Errorf("max allowed length is %d, got %d", id32.IDBitSize, id.Length())
 	}
 	return nil
 }
diff --git a/pkg/tree/tree64/tree64.go b/pkg/tree/tree64/tree64.go
index 47ee501..e0cea25 100644
--- a/pkg/tree/tree64/tree64.go
+++ b/pkg/tree/tree64/tree64.go
@@ -286,8 +286,8 @@ func (r *tree64) validate(id tree.ID) error {
 	if id.ID() > uint64(r.size) {
 		return fmt.Errorf("max id allowed is %d, got %d", r.size, id.ID())
 	}
-	if id.Length() < uint8(0) {
-		return fmt.Errorf("min allowed length is %d, got %d", r.length, id.Length())
+	if id.Length() > id64.IDBitSize {
+		return fmt.Errorf("max allowed length is %d, got %d", id64.IDBitSize, id.Length())
 	}
 	return nil
 }
-- 
2.43.0

