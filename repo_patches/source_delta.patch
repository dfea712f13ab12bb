From fa030a06cd42ffeb7ef735a10c40e053354bc716 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 00:56:04 +0000
Subject: [PATCH 01/23] fix: access the cache entries and the read order only
 under the cache lock

Get updated the read time and (v1) the read order without the lock, and
read the TTL of an entry while SetTTL could be writing it. In v1, Set read
the size of the table after releasing the lock.
---
 v2/xcache.go | 17 ++++++++++-------
 xcache.go    |  5 ++++-
 2 files changed, 14 insertions(+), 8 deletions(-)

diff --git a/v2/xcache.go b/v2/xcache.go
index 4c9dfe5..b33e6df 100644
--- a/v2/xcache.go
+++ b/v2/xcache.go
@@ -106,12 +106,15 @@ func (c *XCache) removeFromPile(key string) {
 	}
 }
 
-// mGet will get the entry of the cache.
-func (c *XCache) mGet(key string) (*XCacheEntry, bool) {
+// mGet will get the entry of the cache and its current TTL.
+func (c *XCache) mGet(key string) (*XCacheEntry, time.Duration, bool) {
 	c.mutex.RLock()
 	defer c.mutex.RUnlock()
 	x, ok := c.items[key]
-	return x, ok
+	if !ok {
+		return nil, 0, false
+	}
+	return x, x.ttl, true
 }
 
 // Get will get the value of an entry.
@@ -119,10 +122,10 @@ func (c *XCache) mGet(key string) (*XCacheEntry, bool) {
 // If the entry exists and is invalidated by time or validator function, then returns nil, true.
 // If the entry is good, return <value>, false.
 func (c *XCache) Get(key string) (interface{}, bool) {
-	if x, ok := c.mGet(key); ok {
+	if x, ttl, ok := c.mGet(key); ok {
 		// expired by TTL ?
-		if x.ttl != 0 {
-			if x.ctime.Add(x.ttl).Before(time.Now()) {
+		if ttl != 0 {
+			if x.ctime.Add(ttl).Before(time.Now()) {
 				c.Del(key)
 				/*
 					c.mutex.Lock()
@@ -164,9 +167,9 @@ func (c *XCache) Get(key string) (interface{}, bool) {
 				return nil, true
 			}
 		}
-		x.rtime = time.Now()
 		c.mutex.Lock()
 		defer c.mutex.Unlock()
+		x.rtime = time.Now()
 		c.removeFromPile(key)
 		c.pile = append(c.pile, key)
 		return x.data, false
diff --git a/xcache.go b/xcache.go
index 0204986..d983de8 100644
--- a/xcache.go
+++ b/xcache.go
@@ -68,8 +68,9 @@ func (c *XCache) Set(key string, indata interface{}) {
 		c.removeFromPile(key)
 	}
 	c.pile = append(c.pile, key)
+	full := c.Maxitems > 0 && len(c.items) >= c.Maxitems
 	c.mutex.Unlock()
-	if c.Maxitems > 0 && len(c.items) >= c.Maxitems {
+	if full {
 		// We need a cleaning
 		c.Clean(10)
 	}
@@ -123,9 +124,11 @@ func (c *XCache) Get(key string) (interface{}, bool) {
 				return nil, true
 			}
 		}
+		c.mutex.Lock()
 		x.rtime = time.Now()
 		c.removeFromPile(key)
 		c.pile = append(c.pile, key)
+		c.mutex.Unlock()
 		return x.data, false
 	}
 	c.mutex.Unlock()
-- 
2.43.0


From 5929e8f46b3d701dd9c3e2bd6d5a0981faf44101 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 00:56:05 +0000
Subject: [PATCH 02/23] fix: never let Get drop or resurrect an entry changed
 since it was read

Get decides on an entry outside of the lock. If another goroutine stored a
fresh value under the same key in the meantime, Get deleted that fresh value.
If it deleted the key, Get put the key back into the read order.
---
 v2/xcache.go | 46 ++++++++++++++++++++++------------------------
 xcache.go    | 32 +++++++++++++++++++++-----------
 2 files changed, 43 insertions(+), 35 deletions(-)

diff --git a/v2/xcache.go b/v2/xcache.go
index b33e6df..bf3a905 100644
--- a/v2/xcache.go
+++ b/v2/xcache.go
@@ -126,13 +126,7 @@ func (c *XCache) Get(key string) (interface{}, bool) {
 		// expired by TTL ?
 		if ttl != 0 {
 			if x.ctime.Add(ttl).Before(time.Now()) {
-				c.Del(key)
-				/*
-					c.mutex.Lock()
-					delete(c.items, key)
-					c.removeFromPile(key)
-					c.mutex.Unlock()
-				*/
+				c.delEntry(key, x)
 				return nil, true
 			}
 		}
@@ -141,13 +135,7 @@ func (c *XCache) Get(key string) (interface{}, bool) {
 				if LOG {
 					log.Println("Validator invalids entry: " + key)
 				}
-				c.Del(key)
-				/*
-					c.mutex.Lock()
-					delete(c.items, key)
-					c.removeFromPile(key)
-					c.mutex.Unlock()
-				*/
+				c.delEntry(key, x)
 				return nil, true
 			}
 		}
@@ -157,21 +145,18 @@ func (c *XCache) Get(key string) (interface{}, bool) {
 				if LOG {
 					log.Println("Cache timeout Expired: " + key)
 				}
-				c.Del(key)
-				/*
-					c.mutex.Lock()
-					delete(c.items, key)
-					c.removeFromPile(key)
-					c.mutex.Unlock()
-				*/
+				c.delEntry(key, x)
 				return nil, true
 			}
 		}
 		c.mutex.Lock()
 		defer c.mutex.Unlock()
-		x.rtime = time.Now()
-		c.removeFromPile(key)
-		c.pile = append(c.pile, key)
+		// the entry may have been deleted or replaced since it was read
+		if c.items[key] == x {
+			x.rtime = time.Now()
+			c.removeFromPile(key)
+			c.pile = append(c.pile, key)
+		}
 		return x.data, false
 	}
 	return nil, false
@@ -186,6 +171,19 @@ func (c *XCache) Del(key string) {
 	c.removeFromPile(key)
 }
 
+// delEntry will delete the entry of the cache only if it is still the entry x, not a newer one set in the meantime.
+// Returns true if the entry has been deleted.
+func (c *XCache) delEntry(key string, x *XCacheEntry) bool {
+	c.mutex.Lock()
+	defer c.mutex.Unlock()
+	if c.items[key] != x {
+		return false
+	}
+	delete(c.items, key)
+	c.removeFromPile(key)
+	return true
+}
+
 // Count will return the quantity of entries in the cache.
 func (c *XCache) Count() int {
 	c.mutex.RLock()
diff --git a/xcache.go b/xcache.go
index d983de8..243ad6d 100644
--- a/xcache.go
+++ b/xcache.go
@@ -104,10 +104,7 @@ func (c *XCache) Get(key string) (interface{}, bool) {
 				if LOG {
 					log.Println("Validator invalids entry: " + key)
 				}
-				c.mutex.Lock()
-				delete(c.items, key)
-				c.removeFromPile(key)
-				c.mutex.Unlock()
+				c.delEntry(key, x)
 				return nil, true
 			}
 		}
@@ -117,17 +114,17 @@ func (c *XCache) Get(key string) (interface{}, bool) {
 				if LOG {
 					log.Println("Cache timeout Expired: " + key)
 				}
-				c.mutex.Lock()
-				delete(c.items, key)
-				c.removeFromPile(key)
-				c.mutex.Unlock()
+				c.delEntry(key, x)
 				return nil, true
 			}
 		}
 		c.mutex.Lock()
-		x.rtime = time.Now()
-		c.removeFromPile(key)
-		c.pile = append(c.pile, key)
+		// the entry may have been deleted or replaced since it was read
+		if c.items[key] == x {
+			x.rtime = time.Now()
+			c.removeFromPile(key)
+			c.pile = append(c.pile, key)
+		}
 		c.mutex.Unlock()
 		return x.data, false
 	}
@@ -144,6 +141,19 @@ func (c *XCache) Del(key string) {
 	c.mutex.Unlock()
 }
 
+// delEntry will delete the entry of the cache only if it is still the entry x, not a newer one set in the meantime.
+// Returns true if the entry has been deleted.
+func (c *XCache) delEntry(key string, x *XCacheEntry) bool {
+	c.mutex.Lock()
+	defer c.mutex.Unlock()
+	if c.items[key] != x {
+		return false
+	}
+	delete(c.items, key)
+	c.removeFromPile(key)
+	return true
+}
+
 // Count will return the quantity of entries in the cache.
 func (c *XCache) Count() int {
 	c.mutex.Lock()
-- 
2.43.0


From e07e8bc6d10e86636b5c76c886a01de387e540af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 00:56:05 +0000
Subject: [PATCH 03/23] fix: do not walk the live cache table without the lock
 in Verify

Verify ranged over the table while other goroutines could write it, deleted
values stored after the check, and in v1 left deleted keys in the read order.
It now checks a copy of the table and deletes only entries still in place.
---
 v2/xcache.go | 24 +++++++++++++++---------
 xcache.go    | 20 +++++++++++++++-----
 2 files changed, 30 insertions(+), 14 deletions(-)

diff --git a/v2/xcache.go b/v2/xcache.go
index bf3a905..1593050 100644
--- a/v2/xcache.go
+++ b/v2/xcache.go
@@ -237,6 +237,17 @@ func (c *XCache) Clean(perc int) int {
 	return c.mClean(perc)
 }
 
+// entries will return a copy of the table of entries.
+func (c *XCache) entries() map[string]*XCacheEntry {
+	c.mutex.RLock()
+	defer c.mutex.RUnlock()
+	entries := make(map[string]*XCacheEntry, len(c.items))
+	for k, x := range c.items {
+		entries[k] = x
+	}
+	return entries
+}
+
 // Verify will first, Clean(0) keeping all the entries, then will delete expired entries using the Validator function.
 // Returns the quantity of removed entries.
 // Based on what the validator function does, calling Verify can be **very** slow and cpu dependant. Be very careful.
@@ -245,19 +256,14 @@ func (c *XCache) Verify() int {
 	i := c.Clean(0)
 	// 2. If there is a validator, verifies anything
 	if c.Validator != nil {
-		for k, x := range c.items {
+		for k, x := range c.entries() {
 			if b := c.Validator(k, x.ctime); !b {
 				if LOG {
 					log.Println("Validator invalids entry: " + k)
 				}
-				c.Del(k)
-				/*
-					c.mutex.Lock()
-					delete(c.items, k)
-					c.removeFromPile(k)
-					c.mutex.Unlock()
-				*/
-				i++
+				if c.delEntry(k, x) {
+					i++
+				}
 			}
 		}
 	}
diff --git a/xcache.go b/xcache.go
index 243ad6d..d2b61b1 100644
--- a/xcache.go
+++ b/xcache.go
@@ -199,6 +199,17 @@ func (c *XCache) Clean(perc int) int {
 	return i
 }
 
+// entries will return a copy of the table of entries.
+func (c *XCache) entries() map[string]*XCacheEntry {
+	c.mutex.Lock()
+	defer c.mutex.Unlock()
+	entries := make(map[string]*XCacheEntry, len(c.items))
+	for k, x := range c.items {
+		entries[k] = x
+	}
+	return entries
+}
+
 // Verify will first, Clean(0) keeping all the entries, then will delete expired entries using the Validator function.
 // Returns the quantity of removed entries.
 // Based on what the validator function does, calling Verify can be **very** slow and cpu dependant. Be very careful.
@@ -207,15 +218,14 @@ func (c *XCache) Verify() int {
 	i := c.Clean(0)
 	// 2. If there is a validator, verifies anything
 	if c.Validator != nil {
-		for k, x := range c.items {
+		for k, x := range c.entries() {
 			if b := c.Validator(k, x.ctime); !b {
 				if LOG {
 					log.Println("Validator invalids entry: " + k)
 				}
-				c.mutex.Lock()
-				delete(c.items, k)
-				c.mutex.Unlock()
-				i++
+				if c.delEntry(k, x) {
+					i++
+				}
 			}
 		}
 	}
-- 
2.43.0


From 43c4140879a5847bfd5b8f2d5a812e5c303becba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 00:56:05 +0000
Subject: [PATCH 04/23] fix: keep the read order and the returned count right
 when Clean removes expired entries

Clean left the keys of expired entries in the read order, so later cleans
removed nothing and the order grew for ever. The returned quantity ignored
the expired entries. A percentage over 100 caused an index out of range.
---
 v2/xcache.go | 18 +++++++++++++++---
 xcache.go    | 18 +++++++++++++++---
 2 files changed, 30 insertions(+), 6 deletions(-)

diff --git a/v2/xcache.go b/v2/xcache.go
index 1593050..01f603c 100644
--- a/v2/xcache.go
+++ b/v2/xcache.go
@@ -213,6 +213,16 @@ func (c *XCache) mClean(perc int) int {
 			}
 		}
 	}
+	if i > 0 {
+		// keep only the surviving keys in the pile
+		kept := c.pile[:0]
+		for _, k := range c.pile {
+			if _, ok := c.items[k]; ok {
+				kept = append(kept, k)
+			}
+		}
+		c.pile = kept
+	}
 	// 2. clean perc% of olders
 	// How many do we have to clean ?
 	total := len(c.items)
@@ -220,10 +230,12 @@ func (c *XCache) mClean(perc int) int {
 	if LOG {
 		log.Println("Quantity of elements to remove from cache:", num)
 	}
-	for i = 0; i < num; i++ {
-		delete(c.items, c.pile[i])
+	j := 0
+	for ; j < num && j < len(c.pile); j++ {
+		delete(c.items, c.pile[j])
+		i++
 	}
-	c.pile = c.pile[i:]
+	c.pile = c.pile[j:]
 	return i
 }
 
diff --git a/xcache.go b/xcache.go
index d2b61b1..c550e3d 100644
--- a/xcache.go
+++ b/xcache.go
@@ -184,6 +184,16 @@ func (c *XCache) Clean(perc int) int {
 			}
 		}
 	}
+	if i > 0 {
+		// keep only the surviving keys in the pile
+		kept := c.pile[:0]
+		for _, k := range c.pile {
+			if _, ok := c.items[k]; ok {
+				kept = append(kept, k)
+			}
+		}
+		c.pile = kept
+	}
 	// 2. clean perc% of olders
 	// How many do we have to clean ?
 	total := len(c.items)
@@ -191,10 +201,12 @@ func (c *XCache) Clean(perc int) int {
 	if LOG {
 		log.Println("Quantity of elements to remove from cache:", num)
 	}
-	for i = 0; i < num; i++ {
-		delete(c.items, c.pile[i])
+	j := 0
+	for ; j < num && j < len(c.pile); j++ {
+		delete(c.items, c.pile[j])
+		i++
 	}
-	c.pile = c.pile[i:]
+	c.pile = c.pile[j:]
 	c.mutex.Unlock()
 	return i
 }
-- 
2.43.0


From c639e02efa5da71cd9e296b51e7d0ed44e1f30d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 00:56:06 +0000
Subject: [PATCH 05/23] fix: forget the read order of the flushed entries in
 Flush

The stale keys made the next cleans remove nothing.
---
 v2/xcache.go | 1 +
 xcache.go    | 1 +
 2 files changed, 2 insertions(+)

diff --git a/v2/xcache.go b/v2/xcache.go
index 01f603c..7d4d25e 100644
--- a/v2/xcache.go
+++ b/v2/xcache.go
@@ -289,4 +289,5 @@ func (c *XCache) Flush() {
 	defer c.mutex.Unlock()
 	// how to really deletes the data ? ( to free memory)
 	c.items = make(map[string]*XCacheEntry)
+	c.pile = nil
 }
diff --git a/xcache.go b/xcache.go
index c550e3d..e28567d 100644
--- a/xcache.go
+++ b/xcache.go
@@ -250,5 +250,6 @@ func (c *XCache) Flush() {
 	c.mutex.Lock()
 	// how to really deletes the data ? ( to free memory)
 	c.items = make(map[string]*XCacheEntry)
+	c.pile = nil
 	c.mutex.Unlock()
 }
-- 
2.43.0


From b85f46fbf4fa802e0ea7a7afd223c2cf59a575c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 00:56:06 +0000
Subject: [PATCH 06/23] fix: apply the maximum number of items to caches of
 less than 10 items

The automatic clean removes 10% of the entries, rounded down to 0 for such
a cache, so it grew over its limit.
---
 v2/xcache.go | 5 +++++
 xcache.go    | 5 +++++
 2 files changed, 10 insertions(+)

diff --git a/v2/xcache.go b/v2/xcache.go
index 7d4d25e..22adf73 100644
--- a/v2/xcache.go
+++ b/v2/xcache.go
@@ -75,6 +75,11 @@ func (c *XCache) Set(key string, indata interface{}) {
 		// We need a cleaning
 		c.mClean(10)
 	}
+	// 10% of a small cache is nothing: the limit still applies
+	for c.Maxitems > 0 && len(c.items) > c.Maxitems && len(c.pile) > 0 {
+		delete(c.items, c.pile[0])
+		c.pile = c.pile[1:]
+	}
 }
 
 // Set will set a TTL on the entry in the cache.
diff --git a/xcache.go b/xcache.go
index e28567d..17a76af 100644
--- a/xcache.go
+++ b/xcache.go
@@ -68,6 +68,11 @@ func (c *XCache) Set(key string, indata interface{}) {
 		c.removeFromPile(key)
 	}
 	c.pile = append(c.pile, key)
+	// the clean is 10%, which is nothing for a small cache: the limit still applies
+	for c.Maxitems > 0 && len(c.items) > c.Maxitems && len(c.pile) > 0 {
+		delete(c.items, c.pile[0])
+		c.pile = c.pile[1:]
+	}
 	full := c.Maxitems > 0 && len(c.items) >= c.Maxitems
 	c.mutex.Unlock()
 	if full {
-- 
2.43.0


From 6a666d33c8f52940254bdf1e988b45c45a379c1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 00:58:08 +0000
Subject: [PATCH 07/23] fix: release the XDatasetTS lock when the wrapped
 dataset panics

Set, Del and Clone called the wrapped dataset without a deferred unlock: a
panic recovered by the caller left the object locked for ever.
---
 v2/xdatasetts.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/v2/xdatasetts.go b/v2/xdatasetts.go
index 75b5636..0933ab4 100644
--- a/v2/xdatasetts.go
+++ b/v2/xdatasetts.go
@@ -37,8 +37,8 @@ func (ds *XDatasetTS) GoString() string {
 // Set will add a variable key with value data to the XDatasetTS
 func (ds *XDatasetTS) Set(key string, data interface{}) {
 	ds.mutex.Lock()
+	defer ds.mutex.Unlock()
 	ds.data.Set(key, data)
-	ds.mutex.Unlock()
 }
 
 // Get will read the value of the key variable
@@ -139,15 +139,15 @@ func (ds *XDatasetTS) GetTimeCollection(key string) ([]time.Time, bool) {
 // Del will deletes the variable
 func (ds *XDatasetTS) Del(key string) {
 	ds.mutex.Lock()
+	defer ds.mutex.Unlock()
 	ds.data.Del(key)
-	ds.mutex.Unlock()
 }
 
 // Clone will creates a totally new data memory cloned from this object
 func (ds *XDatasetTS) Clone() XDatasetDef {
 	cloned := &XDatasetTS{}
 	ds.mutex.RLock()
+	defer ds.mutex.RUnlock()
 	cloned.data = ds.data.Clone()
-	ds.mutex.RUnlock()
 	return cloned
 }
-- 
2.43.0


From 47d84651b73d27e1dd3343f60ea96e80133a2dfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 00:58:08 +0000
Subject: [PATCH 08/23] fix: make the zero XDatasetTS usable as documented

The manual builds a dataset with &xcore.XDatasetTS{} and calls Set on it,
which was a nil pointer panic as every other method.
---
 v2/xdatasetts.go | 46 +++++++++++++++++++++++++++++-----------------
 1 file changed, 29 insertions(+), 17 deletions(-)

diff --git a/v2/xdatasetts.go b/v2/xdatasetts.go
index 0933ab4..ec39f4b 100644
--- a/v2/xdatasetts.go
+++ b/v2/xdatasetts.go
@@ -20,24 +20,36 @@ func NewXDatasetTS(maindata XDatasetDef) *XDatasetTS {
 	return ds
 }
 
+// inner will return the wrapped dataset, or an empty one when nothing has been set yet into a zero XDatasetTS.
+// The caller must hold the lock.
+func (ds *XDatasetTS) inner() XDatasetDef {
+	if ds.data == nil {
+		return &XDataset{}
+	}
+	return ds.data
+}
+
 // String will transform the XDataset into a readable string for humans
 func (ds *XDatasetTS) String() string {
 	ds.mutex.RLock()
 	defer ds.mutex.RUnlock()
-	return ds.data.String()
+	return ds.inner().String()
 }
 
 // GoString will transform the XDataset into a readable string for humans
 func (ds *XDatasetTS) GoString() string {
 	ds.mutex.RLock()
 	defer ds.mutex.RUnlock()
-	return ds.data.GoString()
+	return ds.inner().GoString()
 }
 
 // Set will add a variable key with value data to the XDatasetTS
 func (ds *XDatasetTS) Set(key string, data interface{}) {
 	ds.mutex.Lock()
 	defer ds.mutex.Unlock()
+	if ds.data == nil {
+		ds.data = &XDataset{}
+	}
 	ds.data.Set(key, data)
 }
 
@@ -45,28 +57,28 @@ func (ds *XDatasetTS) Set(key string, data interface{}) {
 func (ds *XDatasetTS) Get(key string) (interface{}, bool) {
 	ds.mutex.RLock()
 	defer ds.mutex.RUnlock()
-	return ds.data.Get(key)
+	return ds.inner().Get(key)
 }
 
 // GetDataset will read the value of the key variable as a XDatasetDef cast type
 func (ds *XDatasetTS) GetDataset(key string) (XDatasetDef, bool) {
 	ds.mutex.RLock()
 	defer ds.mutex.RUnlock()
-	return ds.data.GetDataset(key)
+	return ds.inner().GetDataset(key)
 }
 
 // GetCollection will read the value of the key variable as a XDatasetCollection cast type
 func (ds *XDatasetTS) GetCollection(key string) (XDatasetCollectionDef, bool) {
 	ds.mutex.RLock()
 	defer ds.mutex.RUnlock()
-	return ds.data.GetCollection(key)
+	return ds.inner().GetCollection(key)
 }
 
 // GetString will read the value of the key variable as a string cast type
 func (ds *XDatasetTS) GetString(key string) (string, bool) {
 	ds.mutex.RLock()
 	defer ds.mutex.RUnlock()
-	return ds.data.GetString(key)
+	return ds.inner().GetString(key)
 }
 
 // GetBool will read the value of the key variable as a boolean cast type
@@ -75,7 +87,7 @@ func (ds *XDatasetTS) GetString(key string) (string, bool) {
 func (ds *XDatasetTS) GetBool(key string) (bool, bool) {
 	ds.mutex.RLock()
 	defer ds.mutex.RUnlock()
-	return ds.data.GetBool(key)
+	return ds.inner().GetBool(key)
 }
 
 // GetInt will read the value of the key variable as an integer cast type
@@ -84,63 +96,63 @@ func (ds *XDatasetTS) GetBool(key string) (bool, bool) {
 func (ds *XDatasetTS) GetInt(key string) (int, bool) {
 	ds.mutex.RLock()
 	defer ds.mutex.RUnlock()
-	return ds.data.GetInt(key)
+	return ds.inner().GetInt(key)
 }
 
 // GetFloat will read the value of the key variable as a float64 cast type
 func (ds *XDatasetTS) GetFloat(key string) (float64, bool) {
 	ds.mutex.RLock()
 	defer ds.mutex.RUnlock()
-	return ds.data.GetFloat(key)
+	return ds.inner().GetFloat(key)
 }
 
 // GetTime will read the value of the key variable as a time cast type
 func (ds *XDatasetTS) GetTime(key string) (time.Time, bool) {
 	ds.mutex.RLock()
 	defer ds.mutex.RUnlock()
-	return ds.data.GetTime(key)
+	return ds.inner().GetTime(key)
 }
 
 // GetStringCollection will read the value of the key variable as a collection of strings cast type
 func (ds *XDatasetTS) GetStringCollection(key string) ([]string, bool) {
 	ds.mutex.RLock()
 	defer ds.mutex.RUnlock()
-	return ds.data.GetStringCollection(key)
+	return ds.inner().GetStringCollection(key)
 }
 
 // GetBoolCollection will read the value of the key variable as a collection of bool cast type
 func (ds *XDatasetTS) GetBoolCollection(key string) ([]bool, bool) {
 	ds.mutex.RLock()
 	defer ds.mutex.RUnlock()
-	return ds.data.GetBoolCollection(key)
+	return ds.inner().GetBoolCollection(key)
 }
 
 // GetIntCollection will read the value of the key variable as a collection of int cast type
 func (ds *XDatasetTS) GetIntCollection(key string) ([]int, bool) {
 	ds.mutex.RLock()
 	defer ds.mutex.RUnlock()
-	return ds.data.GetIntCollection(key)
+	return ds.inner().GetIntCollection(key)
 }
 
 // GetFloatCollection will read the value of the key variable as a collection of float cast type
 func (ds *XDatasetTS) GetFloatCollection(key string) ([]float64, bool) {
 	ds.mutex.RLock()
 	defer ds.mutex.RUnlock()
-	return ds.data.GetFloatCollection(key)
+	return ds.inner().GetFloatCollection(key)
 }
 
 // GetTimeCollection will read the value of the key variable as a collection of time cast type
 func (ds *XDatasetTS) GetTimeCollection(key string) ([]time.Time, bool) {
 	ds.mutex.RLock()
 	defer ds.mutex.RUnlock()
-	return ds.data.GetTimeCollection(key)
+	return ds.inner().GetTimeCollection(key)
 }
 
 // Del will deletes the variable
 func (ds *XDatasetTS) Del(key string) {
 	ds.mutex.Lock()
 	defer ds.mutex.Unlock()
-	ds.data.Del(key)
+	ds.inner().Del(key)
 }
 
 // Clone will creates a totally new data memory cloned from this object
@@ -148,6 +160,6 @@ func (ds *XDatasetTS) Clone() XDatasetDef {
 	cloned := &XDatasetTS{}
 	ds.mutex.RLock()
 	defer ds.mutex.RUnlock()
-	cloned.data = ds.data.Clone()
+	cloned.data = ds.inner().Clone()
 	return cloned
 }
-- 
2.43.0


From fd56a5a2140630fceda022e4b4310fc8347aaa96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 00:58:09 +0000
Subject: [PATCH 09/23] fix: return nil from Pop and Shift on an empty
 collection

They panicked with an index out of range, and on XDatasetCollectionTS the
panic also left the collection locked. With concurrent users a caller cannot
check Count first.
---
 v2/xdatasetcollection.go   |  6 ++++++
 v2/xdatasetcollectionts.go | 10 ++++++++--
 xdataset.go                |  6 ++++++
 3 files changed, 20 insertions(+), 2 deletions(-)

diff --git a/v2/xdatasetcollection.go b/v2/xdatasetcollection.go
index 7e015fa..c08ba9b 100644
--- a/v2/xdatasetcollection.go
+++ b/v2/xdatasetcollection.go
@@ -45,6 +45,9 @@ func (d *XDatasetCollection) Unshift(data XDatasetDef) {
 
 // Shift will remove the element at the beginning of the collection
 func (d *XDatasetCollection) Shift() XDatasetDef {
+	if len(*d) == 0 {
+		return nil
+	}
 	data := (*d)[0]
 	*d = (*d)[1:]
 	return data
@@ -57,6 +60,9 @@ func (d *XDatasetCollection) Push(data XDatasetDef) {
 
 // Pop will remove the element at the end of the collection
 func (d *XDatasetCollection) Pop() XDatasetDef {
+	if len(*d) == 0 {
+		return nil
+	}
 	data := (*d)[len(*d)-1]
 	*d = (*d)[:len(*d)-1]
 	return data
diff --git a/v2/xdatasetcollectionts.go b/v2/xdatasetcollectionts.go
index 2d4838d..13d81c0 100644
--- a/v2/xdatasetcollectionts.go
+++ b/v2/xdatasetcollectionts.go
@@ -40,9 +40,12 @@ func (dc *XDatasetCollectionTS) Unshift(data XDatasetDef) {
 // Shift will remove the element at the beginning of the collection
 func (dc *XDatasetCollectionTS) Shift() XDatasetDef {
 	dc.mutex.Lock()
+	defer dc.mutex.Unlock()
+	if len(dc.data) == 0 {
+		return nil
+	}
 	data := dc.data[0]
 	dc.data = dc.data[1:]
-	dc.mutex.Unlock()
 	return data
 }
 
@@ -56,9 +59,12 @@ func (dc *XDatasetCollectionTS) Push(data XDatasetDef) {
 // Pop will remove the element at the end of the collection
 func (dc *XDatasetCollectionTS) Pop() XDatasetDef {
 	dc.mutex.Lock()
+	defer dc.mutex.Unlock()
+	if len(dc.data) == 0 {
+		return nil
+	}
 	data := dc.data[len(dc.data)-1]
 	dc.data = dc.data[:len(dc.data)-1]
-	dc.mutex.Unlock()
 	return data
 }
 
diff --git a/xdataset.go b/xdataset.go
index 671bc7c..29a0722 100644
--- a/xdataset.go
+++ b/xdataset.go
@@ -470,6 +470,9 @@ func (d *XDatasetCollection) Unshift(data XDatasetDef) {
 
 // Shift will remove the element at the beginning of the collection
 func (d *XDatasetCollection) Shift() XDatasetDef {
+	if len(*d) == 0 {
+		return nil
+	}
 	data := (*d)[0]
 	*d = (*d)[1:]
 	return data
@@ -482,6 +485,9 @@ func (d *XDatasetCollection) Push(data XDatasetDef) {
 
 // Pop will remove the element at the end of the collection
 func (d *XDatasetCollection) Pop() XDatasetDef {
+	if len(*d) == 0 {
+		return nil
+	}
 	data := (*d)[len(*d)-1]
 	*d = (*d)[:len(*d)-1]
 	return data
-- 
2.43.0


From 825e5231743ba1c1ef4fe5e682e98917cf96a76d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 00:58:09 +0000
Subject: [PATCH 10/23] fix: search and clone a consistent copy of the elements
 of XDatasetCollectionTS

GetData took the length and the elements under different locks, so a
concurrent Pop made it panic with the lock held. Clone did not lock at all.
---
 v2/xdatasetcollectionts.go | 20 +++++++++++---------
 1 file changed, 11 insertions(+), 9 deletions(-)

diff --git a/v2/xdatasetcollectionts.go b/v2/xdatasetcollectionts.go
index 13d81c0..cebbcd2 100644
--- a/v2/xdatasetcollectionts.go
+++ b/v2/xdatasetcollectionts.go
@@ -85,16 +85,18 @@ func (dc *XDatasetCollectionTS) Get(index int) (XDatasetDef, bool) {
 	return dc.data[index], true
 }
 
+// snapshot will return a copy of the list of elements
+func (dc *XDatasetCollectionTS) snapshot() []XDatasetDef {
+	dc.mutex.RLock()
+	defer dc.mutex.RUnlock()
+	return append([]XDatasetDef(nil), dc.data...)
+}
+
 // GetData will retrieve the first available data identified by key from the collection ordered by index
 func (dc *XDatasetCollectionTS) GetData(key string) (interface{}, bool) {
-	dc.mutex.RLock()
-	l := len(dc.data) - 1
-	dc.mutex.RUnlock()
-	for i := l; i >= 0; i-- {
-		dc.mutex.RLock()
-		dcc := dc.data[i]
-		dc.mutex.RUnlock()
-		val, ok := dcc.Get(key)
+	data := dc.snapshot()
+	for i := len(data) - 1; i >= 0; i-- {
+		val, ok := data[i].Get(key)
 		if ok {
 			return val, true
 		}
@@ -164,7 +166,7 @@ func (dc *XDatasetCollectionTS) GetCollection(key string) (XDatasetCollectionDef
 // Clone will make a full copy of the object into memory
 func (dc *XDatasetCollectionTS) Clone() XDatasetCollectionDef {
 	cloned := &XDatasetCollectionTS{}
-	for _, val := range dc.data {
+	for _, val := range dc.snapshot() {
 		cloned.data = append(cloned.data, val.Clone())
 	}
 	return cloned
-- 
2.43.0


From a46dd634c816e66da89c3b7f512f3452de451306 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 00:58:09 +0000
Subject: [PATCH 11/23] fix: do not panic in GetCollection when the value is
 not a collection

XDatasetCollectionTS and the v1 XDatasetCollection asserted the type without
a check. XDatasetCollectionTS also printed a nil value as <nil> where
XDatasetCollection gives an empty string.
---
 v2/xdatasetcollectionts.go | 8 +++++++-
 xdataset.go                | 5 ++++-
 2 files changed, 11 insertions(+), 2 deletions(-)

diff --git a/v2/xdatasetcollectionts.go b/v2/xdatasetcollectionts.go
index cebbcd2..a03ce8a 100644
--- a/v2/xdatasetcollectionts.go
+++ b/v2/xdatasetcollectionts.go
@@ -108,6 +108,9 @@ func (dc *XDatasetCollectionTS) GetData(key string) (interface{}, bool) {
 func (dc *XDatasetCollectionTS) GetDataString(key string) (string, bool) {
 	v, ok := dc.GetData(key)
 	if ok {
+		if v == nil {
+			return "", true
+		}
 		return fmt.Sprint(v), true
 	}
 	return "", false
@@ -158,7 +161,10 @@ func (dc *XDatasetCollectionTS) GetCollection(key string) (XDatasetCollectionDef
 	v, ok := dc.GetData(key)
 	// Verify v IS actually a XDatasetCollectionDef to avoid the error
 	if ok {
-		return v.(XDatasetCollectionDef), true
+		dsd, ok2 := v.(XDatasetCollectionDef)
+		if ok2 {
+			return dsd, true
+		}
 	}
 	return nil, false
 }
diff --git a/xdataset.go b/xdataset.go
index 29a0722..8aedd42 100644
--- a/xdataset.go
+++ b/xdataset.go
@@ -574,7 +574,10 @@ func (d *XDatasetCollection) GetCollection(key string) (XDatasetCollectionDef, b
 	v, ok := d.GetData(key)
 	// Verify v IS actually a XDatasetCollectionDef to avoid the error
 	if ok {
-		return v.(XDatasetCollectionDef), true
+		dsd, ok2 := v.(XDatasetCollectionDef)
+		if ok2 {
+			return dsd, true
+		}
 	}
 	return nil, false
 }
-- 
2.43.0


From 014a1ec01c70d27367cef0d3e201abf8618029f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 00:58:10 +0000
Subject: [PATCH 12/23] fix: accept Set on a nil XDataset

A declared but not initialized XDataset panicked on its first Set.
---
 v2/xdataset.go | 3 +++
 xdataset.go    | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/v2/xdataset.go b/v2/xdataset.go
index f3c661b..0d261a3 100644
--- a/v2/xdataset.go
+++ b/v2/xdataset.go
@@ -65,6 +65,9 @@ func (d *XDataset) GoString() string {
 
 // Set will add a variable key with value data to the XDataset
 func (d *XDataset) Set(key string, data interface{}) {
+	if *d == nil {
+		*d = XDataset{}
+	}
 	(*d)[key] = data
 }
 
diff --git a/xdataset.go b/xdataset.go
index 8aedd42..e062984 100644
--- a/xdataset.go
+++ b/xdataset.go
@@ -83,6 +83,9 @@ func (d *XDataset) GoString() string {
 
 // Set will add a variable key with value data to the XDataset
 func (d *XDataset) Set(key string, data interface{}) {
+	if *d == nil {
+		*d = XDataset{}
+	}
 	(*d)[key] = data
 }
 
-- 
2.43.0


From dec8c64fb786e1e660c0170794ba943570b7b2f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 00:58:10 +0000
Subject: [PATCH 13/23] fix: protect the name and the language tag of XLanguage
 with its lock

They were read and written without the lock, while GetXML reads them.
---
 v2/xlanguage.go | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/v2/xlanguage.go b/v2/xlanguage.go
index 7506d73..f84c40e 100644
--- a/v2/xlanguage.go
+++ b/v2/xlanguage.go
@@ -112,10 +112,10 @@ func (l *XLanguage) LoadXMLString(data string) error {
 	}
 
 	// Scan to our XLanguage Object
-	l.Name = temp.Name
-	l.Language, _ = language.Parse(temp.Language)
 	l.mutex.Lock()
 	defer l.mutex.Unlock()
+	l.Name = temp.Name
+	l.Language, _ = language.Parse(temp.Language)
 	for _, e := range temp.Entries {
 		l.entries[e.ID] = e.Entry
 		l.status[e.ID] = e.Status
@@ -179,21 +179,29 @@ func (l *XLanguage) LoadString(data string) error {
 
 // SetName will set the name of the language table
 func (l *XLanguage) SetName(name string) {
+	l.mutex.Lock()
+	defer l.mutex.Unlock()
 	l.Name = name
 }
 
 // SetLanguage will set the language ISO code (2 letters) of the language table
 func (l *XLanguage) SetLanguage(lang language.Tag) {
+	l.mutex.Lock()
+	defer l.mutex.Unlock()
 	l.Language = lang
 }
 
 // GetName will return the name of the language table
 func (l *XLanguage) GetName() string {
+	l.mutex.RLock()
+	defer l.mutex.RUnlock()
 	return l.Name
 }
 
 // GetLanguage will return the language of the language table
 func (l *XLanguage) GetLanguage() language.Tag {
+	l.mutex.RLock()
+	defer l.mutex.RUnlock()
 	return l.Language
 }
 
-- 
2.43.0


From f22f45439bdd4f8f4821846a85047da59022f0c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 00:58:10 +0000
Subject: [PATCH 14/23] fix: leave the object unchanged when a load fails

A language text with an unreadable line and a template with a start/end
mismatch were reported as errors, but only after part of them had replaced
the entries or sub templates of the object.
---
 v2/xlanguage.go | 10 +++++++---
 v2/xtemplate.go |  6 +++++-
 xlanguage.go    |  6 +++++-
 xtemplate.go    |  6 +++++-
 4 files changed, 22 insertions(+), 6 deletions(-)

diff --git a/v2/xlanguage.go b/v2/xlanguage.go
index f84c40e..7090589 100644
--- a/v2/xlanguage.go
+++ b/v2/xlanguage.go
@@ -146,6 +146,7 @@ func (l *XLanguage) LoadFile(file string) error {
 //
 //	Returns nil if there is an error
 func (l *XLanguage) LoadString(data string) error {
+	entries := map[string]string{}
 	scanner := bufio.NewScanner(strings.NewReader(data))
 	for scanner.Scan() {
 		line := scanner.Text()
@@ -167,13 +168,16 @@ func (l *XLanguage) LoadString(data string) error {
 		if len(line) > posequal {
 			value = strings.TrimSpace(line[posequal+1:])
 		}
-		l.mutex.Lock()
-		l.entries[key] = value
-		l.mutex.Unlock()
+		entries[key] = value
 	}
 	if err := scanner.Err(); err != nil {
 		return err
 	}
+	l.mutex.Lock()
+	defer l.mutex.Unlock()
+	for key, value := range entries {
+		l.entries[key] = value
+	}
 	return nil
 }
 
diff --git a/v2/xtemplate.go b/v2/xtemplate.go
index 72bd540..5b35d3e 100644
--- a/v2/xtemplate.go
+++ b/v2/xtemplate.go
@@ -205,7 +205,8 @@ func (t *XTemplate) compile(data string) error {
 	// second pass: all the sub templates into the Subtemplates
 	startpointers := []int{}
 	subtemplates := []*XTemplate{}
-	actualtemplate := t
+	root := &XTemplate{}
+	actualtemplate := root
 	for i, x := range compiled {
 		if x.ParamType == MetaTemplateStart {
 			startpointers = append(startpointers, i)
@@ -268,6 +269,9 @@ func (t *XTemplate) compile(data string) error {
 	}
 
 	compiled = compiled[:currentpointer]
+	for name, tmpl := range root.SubTemplates {
+		t.AddTemplate(name, tmpl)
+	}
 	t.Root = &compiled
 	return nil
 }
diff --git a/xlanguage.go b/xlanguage.go
index 2d23505..53ff6f4 100644
--- a/xlanguage.go
+++ b/xlanguage.go
@@ -146,6 +146,7 @@ func (l *XLanguage) LoadFile(file string) error {
 //
 //	Returns nil if there is an error
 func (l *XLanguage) LoadString(data string) error {
+	entries := map[string]string{}
 	scanner := bufio.NewScanner(strings.NewReader(data))
 	for scanner.Scan() {
 		line := scanner.Text()
@@ -167,11 +168,14 @@ func (l *XLanguage) LoadString(data string) error {
 		if len(line) > posequal {
 			value = strings.TrimSpace(line[posequal+1:])
 		}
-		l.Entries[key] = value
+		entries[key] = value
 	}
 	if err := scanner.Err(); err != nil {
 		return err
 	}
+	for key, value := range entries {
+		l.Entries[key] = value
+	}
 	return nil
 }
 
diff --git a/xtemplate.go b/xtemplate.go
index 6451339..e500b24 100644
--- a/xtemplate.go
+++ b/xtemplate.go
@@ -197,7 +197,8 @@ func (t *XTemplate) compile(data string) error {
 	// second pass: all the sub templates into the Subtemplates
 	startpointers := []int{}
 	subtemplates := []*XTemplate{}
-	actualtemplate := t
+	root := &XTemplate{}
+	actualtemplate := root
 	for i, x := range compiled {
 		if x.ParamType == MetaTemplateStart {
 			startpointers = append(startpointers, i)
@@ -260,6 +261,9 @@ func (t *XTemplate) compile(data string) error {
 	}
 
 	compiled = compiled[:currentpointer]
+	for name, tmpl := range root.SubTemplates {
+		t.AddTemplate(name, tmpl)
+	}
 	t.Root = &compiled
 	return nil
 }
-- 
2.43.0


From ca671763429a17fc6a8484f9522b1734dce8aa46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 00:58:10 +0000
Subject: [PATCH 15/23] fix: escape the ids, statuses and values written by
 GetXML

A quote, an ampersand, a < or the end mark of a CDATA section in the table
produced a document that could not be loaded back.
---
 v2/xlanguage.go | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/v2/xlanguage.go b/v2/xlanguage.go
index 7090589..cae7c6e 100644
--- a/v2/xlanguage.go
+++ b/v2/xlanguage.go
@@ -2,6 +2,7 @@ package xcore
 
 import (
 	"bufio"
+	"bytes"
 	"encoding/xml"
 	"fmt"
 	"io/ioutil"
@@ -264,16 +265,24 @@ func (l *XLanguage) GetEntries() map[string]string {
 	return clone
 }
 
+// escapeXML will escape the text to be used as an XML attribute value
+func escapeXML(text string) string {
+	var buf bytes.Buffer
+	xml.EscapeText(&buf, []byte(text))
+	return buf.String()
+}
+
 // GetXML will generate the XML to save the file
 func (l *XLanguage) GetXML() string {
 	sdata := []string{}
 	l.mutex.RLock()
 	defer l.mutex.RUnlock()
 	for key, val := range l.entries {
-		sdata = append(sdata, "  <entry id=\""+key+"\" status=\""+l.status[key]+"\"><![CDATA["+val+"]]></entry>")
+		val = strings.Replace(val, "]]>", "]]]]><![CDATA[>", -1)
+		sdata = append(sdata, "  <entry id=\""+escapeXML(key)+"\" status=\""+escapeXML(l.status[key])+"\"><![CDATA["+val+"]]></entry>")
 	}
 	sort.Strings(sdata) // Lets be sure the print is always the same presentation
-	return "<?xml version=\"1.0\" encoding=\"UTF-8\" ?>\n<language id=\"" + l.Name + "\" lang=\"" + fmt.Sprint(l.Language) + "\">\n" +
+	return "<?xml version=\"1.0\" encoding=\"UTF-8\" ?>\n<language id=\"" + escapeXML(l.Name) + "\" lang=\"" + fmt.Sprint(l.Language) + "\">\n" +
 		strings.Join(sdata, "\n") + "\n</language>"
 }
 
-- 
2.43.0


From a0e5686dcdf7ccc28afcd2da390168d6b29e889e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 00:58:11 +0000
Subject: [PATCH 16/23] fix: close the file when it cannot be read

The loaders returned the read error without closing the opened file.
---
 v2/xlanguage.go | 1 +
 v2/xtemplate.go | 1 +
 xlanguage.go    | 2 ++
 xtemplate.go    | 1 +
 4 files changed, 5 insertions(+)

diff --git a/v2/xlanguage.go b/v2/xlanguage.go
index cae7c6e..2564a6e 100644
--- a/v2/xlanguage.go
+++ b/v2/xlanguage.go
@@ -134,6 +134,7 @@ func (l *XLanguage) LoadFile(file string) error {
 	}
 	data, err := ioutil.ReadAll(flatFile)
 	if err != nil {
+		flatFile.Close()
 		return err
 	}
 	err = flatFile.Close()
diff --git a/v2/xtemplate.go b/v2/xtemplate.go
index 5b35d3e..33fcf5a 100644
--- a/v2/xtemplate.go
+++ b/v2/xtemplate.go
@@ -116,6 +116,7 @@ func (t *XTemplate) LoadFile(file string) error {
 	}
 	data, err := ioutil.ReadAll(tFile)
 	if err != nil {
+		tFile.Close()
 		return err
 	}
 	err = tFile.Close()
diff --git a/xlanguage.go b/xlanguage.go
index 53ff6f4..eca0917 100644
--- a/xlanguage.go
+++ b/xlanguage.go
@@ -82,6 +82,7 @@ func (l *XLanguage) LoadXMLFile(file string) error {
 	}
 	data, err := ioutil.ReadAll(xmlFile)
 	if err != nil {
+		xmlFile.Close()
 		return err
 	}
 	err = xmlFile.Close()
@@ -133,6 +134,7 @@ func (l *XLanguage) LoadFile(file string) error {
 	}
 	data, err := ioutil.ReadAll(flatFile)
 	if err != nil {
+		flatFile.Close()
 		return err
 	}
 	err = flatFile.Close()
diff --git a/xtemplate.go b/xtemplate.go
index e500b24..9b62bdb 100644
--- a/xtemplate.go
+++ b/xtemplate.go
@@ -108,6 +108,7 @@ func (t *XTemplate) LoadFile(file string) error {
 	}
 	data, err := ioutil.ReadAll(tFile)
 	if err != nil {
+		tFile.Close()
 		return err
 	}
 	err = tFile.Close()
-- 
2.43.0


From b7ba03dbde825a937ebf9576ce1b5b5d1242b016 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 00:58:11 +0000
Subject: [PATCH 17/23] fix: attach the cloned sub templates to the clone, not
 to the original

Clone changed the father of the sub templates of the original template to the
clone, and left the cloned sub templates attached to the original.
---
 v2/xtemplate.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/v2/xtemplate.go b/v2/xtemplate.go
index 33fcf5a..9582b13 100644
--- a/v2/xtemplate.go
+++ b/v2/xtemplate.go
@@ -535,8 +535,9 @@ func (t *XTemplate) Clone() *XTemplate {
 	if t.SubTemplates != nil {
 		newsubtemplates := map[string]*XTemplate{}
 		for id, xt := range t.SubTemplates {
-			newsubtemplates[id] = xt.Clone()
-			xt.Father = cloned
+			sub := xt.Clone()
+			sub.Father = cloned
+			newsubtemplates[id] = sub
 		}
 		cloned.SubTemplates = newsubtemplates
 	}
-- 
2.43.0


From a0f861d430889252dd152e312615a2d6e09c8aa3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 00:58:11 +0000
Subject: [PATCH 18/23] fix: do not panic when a template with && parameters is
 executed without data

Execute(nil) is supported, but the && element with 2 or 3 parameters used the
missing data. In v1, printing a template not loaded yet panicked too.
---
 v2/xtemplate.go |  7 +++++--
 xtemplate.go    | 10 ++++++++--
 2 files changed, 13 insertions(+), 4 deletions(-)

diff --git a/v2/xtemplate.go b/v2/xtemplate.go
index 9582b13..ea2d7e8 100644
--- a/v2/xtemplate.go
+++ b/v2/xtemplate.go
@@ -341,7 +341,10 @@ func (t *XTemplate) injector(datacol XDatasetCollectionDef, language *XLanguage)
 			if len(xid) == 3 {
 				field := xid[1]
 				prefix := xid[2]
-				value, _ := datacol.GetDataString(field)
+				value := ""
+				if datacol != nil {
+					value, _ = datacol.GetDataString(field)
+				}
 				subt := t.GetTemplate(prefix + value)
 				if subt != nil {
 					substr := subt.injector(datacol, language)
@@ -361,7 +364,7 @@ func (t *XTemplate) injector(datacol XDatasetCollectionDef, language *XLanguage)
 				subt := t.GetTemplate(template)
 				if subt != nil {
 					withds := false
-					if len(xid) == 2 {
+					if len(xid) == 2 && datacol != nil {
 						dcl, _ := datacol.GetData(xid[1])
 						ds, ok := dcl.(XDatasetDef)
 						if ok {
diff --git a/xtemplate.go b/xtemplate.go
index 9b62bdb..67a4d54 100644
--- a/xtemplate.go
+++ b/xtemplate.go
@@ -322,7 +322,10 @@ func (t *XTemplate) injector(datacol XDatasetCollectionDef, language *XLanguage)
 			if len(xid) == 3 {
 				field := xid[1]
 				prefix := xid[2]
-				value, _ := datacol.GetDataString(field)
+				value := ""
+				if datacol != nil {
+					value, _ = datacol.GetDataString(field)
+				}
 				subt := t.GetTemplate(prefix + value)
 				if subt != nil {
 					substr := subt.injector(datacol, language)
@@ -342,7 +345,7 @@ func (t *XTemplate) injector(datacol XDatasetCollectionDef, language *XLanguage)
 				subt := t.GetTemplate(template)
 				if subt != nil {
 					withds := false
-					if len(xid) == 2 {
+					if len(xid) == 2 && datacol != nil {
 						dcl, _ := datacol.GetData(xid[1])
 						ds, ok := dcl.(XDatasetDef)
 						if ok {
@@ -468,6 +471,9 @@ func (t *XTemplate) injector(datacol XDatasetCollectionDef, language *XLanguage)
 // String will transform the XDataset into a readable string for humans
 func (t *XTemplate) String() string {
 	sdata := []string{}
+	if t.Root == nil {
+		return "xcore.XLanguage{}"
+	}
 	for _, val := range *t.Root {
 		sdata = append(sdata, fmt.Sprintf("%v", val))
 	}
-- 
2.43.0


From 49da46c47d09b4627dcce7835aea19f0e9d54410 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 00:58:12 +0000
Subject: [PATCH 19/23] fix: do not modify the injected data when a template
 loops over it

The loop wrote its counter into every record of the collection given by the
caller, which is visible after the call and races with other goroutines that
execute templates on the same data. A record removed by another goroutine
during the loop caused a nil pointer panic.
---
 v2/xtemplate.go | 8 ++++++--
 xtemplate.go    | 3 +++
 2 files changed, 9 insertions(+), 2 deletions(-)

diff --git a/v2/xtemplate.go b/v2/xtemplate.go
index ea2d7e8..dd00d01 100644
--- a/v2/xtemplate.go
+++ b/v2/xtemplate.go
@@ -416,11 +416,15 @@ func (t *XTemplate) injector(datacol XDatasetCollectionDef, language *XLanguage)
 								tmp = subt
 							}
 							dcl, _ := cl.Get(i)
-							dcl.Set(".counter", i+1)
+							if dcl == nil {
+								continue
+							}
 							datacol.Push(dcl)
+							datacol.Push(&XDataset{".counter": i + 1})
 							substr := tmp.injector(datacol, language)
 							injected = append(injected, substr)
-							// unstack extra data
+							// unstack counter and extra data
+							datacol.Pop()
 							datacol.Pop()
 						}
 					} else {
diff --git a/xtemplate.go b/xtemplate.go
index 67a4d54..b2ac419 100644
--- a/xtemplate.go
+++ b/xtemplate.go
@@ -397,6 +397,9 @@ func (t *XTemplate) injector(datacol XDatasetCollectionDef, language *XLanguage)
 								tmp = subt
 							}
 							dcl, _ := cl.Get(i)
+							if dcl == nil {
+								continue
+							}
 							datacol.Push(dcl)
 							substr := tmp.injector(datacol, language)
 							injected = append(injected, substr)
-- 
2.43.0


From 1ba0b8e1d6f738438df00f36a8fc3d52c831f8c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:30:58 +0000
Subject: [PATCH 20/23] fix: skip nil elements of a collection in GetData and
 Clone

---
 v2/xdatasetcollection.go   | 7 +++++++
 v2/xdatasetcollectionts.go | 7 +++++++
 xdataset.go                | 7 +++++++
 3 files changed, 21 insertions(+)

diff --git a/v2/xdatasetcollection.go b/v2/xdatasetcollection.go
index c08ba9b..0033389 100644
--- a/v2/xdatasetcollection.go
+++ b/v2/xdatasetcollection.go
@@ -84,6 +84,9 @@ func (d *XDatasetCollection) Get(index int) (XDatasetDef, bool) {
 // GetData will retrieve the first available data identified by key from the collection ordered by index
 func (d *XDatasetCollection) GetData(key string) (interface{}, bool) {
 	for i := len(*d) - 1; i >= 0; i-- {
+		if (*d)[i] == nil {
+			continue
+		}
 		val, ok := (*d)[i].Get(key)
 		if ok {
 			return val, true
@@ -160,6 +163,10 @@ func (d *XDatasetCollection) GetCollection(key string) (XDatasetCollectionDef, b
 func (d *XDatasetCollection) Clone() XDatasetCollectionDef {
 	cloned := &XDatasetCollection{}
 	for _, val := range *d {
+		if val == nil {
+			*cloned = append(*cloned, nil)
+			continue
+		}
 		*cloned = append(*cloned, val.Clone())
 	}
 	return cloned
diff --git a/v2/xdatasetcollectionts.go b/v2/xdatasetcollectionts.go
index a03ce8a..37ffd73 100644
--- a/v2/xdatasetcollectionts.go
+++ b/v2/xdatasetcollectionts.go
@@ -96,6 +96,9 @@ func (dc *XDatasetCollectionTS) snapshot() []XDatasetDef {
 func (dc *XDatasetCollectionTS) GetData(key string) (interface{}, bool) {
 	data := dc.snapshot()
 	for i := len(data) - 1; i >= 0; i-- {
+		if data[i] == nil {
+			continue
+		}
 		val, ok := data[i].Get(key)
 		if ok {
 			return val, true
@@ -173,6 +176,10 @@ func (dc *XDatasetCollectionTS) GetCollection(key string) (XDatasetCollectionDef
 func (dc *XDatasetCollectionTS) Clone() XDatasetCollectionDef {
 	cloned := &XDatasetCollectionTS{}
 	for _, val := range dc.snapshot() {
+		if val == nil {
+			cloned.data = append(cloned.data, nil)
+			continue
+		}
 		cloned.data = append(cloned.data, val.Clone())
 	}
 	return cloned
diff --git a/xdataset.go b/xdataset.go
index e062984..93ab1f5 100644
--- a/xdataset.go
+++ b/xdataset.go
@@ -512,6 +512,9 @@ func (d *XDatasetCollection) Get(index int) (XDatasetDef, bool) {
 // GetData will retrieve the first available data identified by key from the collection ordered by index
 func (d *XDatasetCollection) GetData(key string) (interface{}, bool) {
 	for i := len(*d) - 1; i >= 0; i-- {
+		if (*d)[i] == nil {
+			continue
+		}
 		val, ok := (*d)[i].Get(key)
 		if ok {
 			return val, true
@@ -589,6 +592,10 @@ func (d *XDatasetCollection) GetCollection(key string) (XDatasetCollectionDef, b
 func (d *XDatasetCollection) Clone() XDatasetCollectionDef {
 	cloned := &XDatasetCollection{}
 	for _, val := range *d {
+		if val == nil {
+			*cloned = append(*cloned, nil)
+			continue
+		}
 		*cloned = append(*cloned, val.Clone())
 	}
 	return cloned
-- 
2.43.0


From ca4a9d9ad49ec73f3bdee5bf841b86bc5a394a25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:12:37 +0000
Subject: [PATCH 21/23] fix: use the .none template when the collection of a
 loop is empty

---
 xtemplate.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xtemplate.go b/xtemplate.go
index b2ac419..e39c72a 100644
--- a/xtemplate.go
+++ b/xtemplate.go
@@ -377,7 +377,7 @@ func (t *XTemplate) injector(datacol XDatasetCollectionDef, language *XLanguage)
 			if subt != nil {
 				if datacol != nil {
 					cl, _ := datacol.GetCollection(subdataid)
-					if cl != nil {
+					if cl != nil && cl.Count() > 0 {
 						for i := 0; i < cl.Count(); i++ {
 							var tmp *XTemplate
 							tmp = t.GetTemplate(subtemplateid + ".key." + strconv.Itoa(i))
-- 
2.43.0


From 46e947724e234beee6909ab117055ebd175acfb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:12:41 +0000
Subject: [PATCH 22/23] fix: use the .none template when a condition is not met

---
 xtemplate.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/xtemplate.go b/xtemplate.go
index e39c72a..ae735a8 100644
--- a/xtemplate.go
+++ b/xtemplate.go
@@ -453,6 +453,12 @@ func (t *XTemplate) injector(datacol XDatasetCollectionDef, language *XLanguage)
 					datacol.Pop()
 				}
 			}
+			if value == nil || fmt.Sprint(value) == "" {
+				tmp := t.GetTemplate(subtemplateid + ".none")
+				if tmp != nil {
+					injected = append(injected, tmp.injector(datacol, language))
+				}
+			}
 		case MetaDump:
 			if datacol != nil {
 				if v.Data == "dump" || v.Data == "list" {
-- 
2.43.0


From 30ab4f895cebb6281a2d21a3fb87ec4785cabfb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:59:10 +0000
Subject: [PATCH 23/23] fix: escape the texts written by GetXML so that any
 text can be read back

A CDATA section cannot hold a carriage return or a control character:
the first was lost and the second made the whole file unreadable.
---
 v2/xlanguage.go | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/v2/xlanguage.go b/v2/xlanguage.go
index 2564a6e..9a69309 100644
--- a/v2/xlanguage.go
+++ b/v2/xlanguage.go
@@ -266,7 +266,7 @@ func (l *XLanguage) GetEntries() map[string]string {
 	return clone
 }
 
-// escapeXML will escape the text to be used as an XML attribute value
+// escapeXML will escape the text to be used as an XML attribute value or element content
 func escapeXML(text string) string {
 	var buf bytes.Buffer
 	xml.EscapeText(&buf, []byte(text))
@@ -279,8 +279,7 @@ func (l *XLanguage) GetXML() string {
 	l.mutex.RLock()
 	defer l.mutex.RUnlock()
 	for key, val := range l.entries {
-		val = strings.Replace(val, "]]>", "]]]]><![CDATA[>", -1)
-		sdata = append(sdata, "  <entry id=\""+escapeXML(key)+"\" status=\""+escapeXML(l.status[key])+"\"><![CDATA["+val+"]]></entry>")
+		sdata = append(sdata, "  <entry id=\""+escapeXML(key)+"\" status=\""+escapeXML(l.status[key])+"\">"+escapeXML(val)+"</entry>")
 	}
 	sort.Strings(sdata) // Lets be sure the print is always the same presentation
 	return "<?xml version=\"1.0\" encoding=\"UTF-8\" ?>\n<language id=\"" + escapeXML(l.Name) + "\" lang=\"" + fmt.Sprint(l.Language) + "\">\n" +
-- 
2.43.0

