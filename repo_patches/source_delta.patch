From e9abbea0f807c96041526385d71c6884525ec104 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:20 +0000
Subject: [PATCH 001/126] fix: the unconstrained native type panics when its
 hash code or string is computed

---
 internal/native.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/internal/native.go b/internal/native.go
index 2c08475..d562a33 100644
--- a/internal/native.go
+++ b/internal/native.go
@@ -46,7 +46,11 @@ func (t *nativeType) Equals(other interface{}) bool {
 }
 
 func (t *nativeType) HashCode() int {
-	return util.StringHash(t.rt.Name())*31 + int(dgo.TiNative)
+	h := int(dgo.TiNative)
+	if t.rt != nil {
+		h += util.StringHash(t.rt.Name()) * 31
+	}
+	return h
 }
 
 func (t *nativeType) ReflectType() reflect.Type {
-- 
2.43.0


From 49796403389a830833bbb34fc5e2db3ea276d4ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:24 +0000
Subject: [PATCH 002/126] fix: Map.With drops an association of a new key to
 nil

---
 internal/map.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/map.go b/internal/map.go
index 6bf7b22..21bc19c 100644
--- a/internal/map.go
+++ b/internal/map.go
@@ -801,7 +801,7 @@ func (g *hashMap) With(ki, vi interface{}) dgo.Map {
 	if g.table == nil {
 		c = &hashMap{table: make([]*hashNode, tableSizeFor(initialCapacity)), len: g.len}
 	} else {
-		if val.Equals(g.Get(key)) {
+		if ov := g.Get(key); ov != nil && val.Equals(ov) {
 			return g
 		}
 		c = &hashMap{len: g.len}
-- 
2.43.0


From bc6a1ddb395462d5fa59d1c726f3d88fa3b11f73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:27 +0000
Subject: [PATCH 003/126] fix: MapEntry.ThawedCopy thaws the receiver instead
 of the copy

---
 internal/map.go | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/internal/map.go b/internal/map.go
index 21bc19c..d5c1c20 100644
--- a/internal/map.go
+++ b/internal/map.go
@@ -133,9 +133,7 @@ func (v *mapEntry) FrozenCopy() dgo.Value {
 
 func (v *mapEntry) ThawedCopy() dgo.Value {
 	c := &mapEntry{key: v.key, value: v.value}
-	if f, ok := v.value.(dgo.Freezable); ok {
-		v.value = f.ThawedCopy()
-	}
+	c.copyThaw()
 	return c
 }
 
@@ -150,9 +148,7 @@ func (v *hashNode) FrozenCopy() dgo.Value {
 
 func (v *hashNode) ThawedCopy() dgo.Value {
 	c := &hashNode{mapEntry: mapEntry{key: v.key, value: v.value}}
-	if f, ok := v.value.(dgo.Freezable); ok {
-		v.value = f.ThawedCopy()
-	}
+	c.copyThaw()
 	return c
 }
 
-- 
2.43.0


From 4121a1351b747a6d63b2c4af3919b8c004be6a8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:31 +0000
Subject: [PATCH 004/126] fix: Map With, Merge, and PutAll double the size of
 the hash table on each call

---
 internal/map.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/internal/map.go b/internal/map.go
index d5c1c20..0338187 100644
--- a/internal/map.go
+++ b/internal/map.go
@@ -586,7 +586,7 @@ func (g *hashMap) Merge(associations dgo.Map) dgo.Map {
 		return associations
 	}
 	c := &hashMap{len: l}
-	g.resize(c, l+associations.Len())
+	g.resize(c, 0)
 	c.PutAll(associations)
 	c.frozen = g.frozen
 	return c
@@ -643,7 +643,7 @@ func (g *hashMap) PutAll(associations dgo.Map) {
 	}
 
 	l := g.len
-	if float64(l+al) > float64(l)*loadFactor {
+	if float64(l+al) > float64(len(g.table))*loadFactor {
 		g.resize(g, al)
 	}
 	tbl := g.table
@@ -801,7 +801,7 @@ func (g *hashMap) With(ki, vi interface{}) dgo.Map {
 			return g
 		}
 		c = &hashMap{len: g.len}
-		g.resize(c, 1)
+		g.resize(c, 0)
 	}
 	c.Put(key, val)
 	c.frozen = g.frozen
-- 
2.43.0


From 2e43d2ffb74251258641401c585569fde07c297a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:11 +0000
Subject: [PATCH 005/126] fix: a Map created from a flat Array has duplicate
 entries when keys are repeated

---
 internal/array.go | 15 +++------------
 1 file changed, 3 insertions(+), 12 deletions(-)

diff --git a/internal/array.go b/internal/array.go
index db7cacb..185efc8 100644
--- a/internal/array.go
+++ b/internal/array.go
@@ -1313,9 +1313,7 @@ func (v *array) ToMap() dgo.Map {
 	if top%2 != 0 {
 		ts++
 	}
-	tbl := make([]*hashNode, tableSizeFor(ts))
-	hl := len(tbl) - 1
-	m := &hashMap{table: tbl, len: ts, frozen: v.frozen}
+	m := MapWithCapacity(ts).(*hashMap)
 
 	for i := 0; i < top; {
 		mk := ms[i]
@@ -1325,16 +1323,9 @@ func (v *array) ToMap() dgo.Map {
 			mv = ms[i]
 			i++
 		}
-		hk := hl & hash(mk.HashCode())
-		nd := &hashNode{mapEntry: mapEntry{key: mk, value: mv}, hashNext: tbl[hk], prev: m.last}
-		if m.first == nil {
-			m.first = nd
-		} else {
-			m.last.next = nd
-		}
-		m.last = nd
-		tbl[hk] = nd
+		m.Put(mk, mv)
 	}
+	m.frozen = v.frozen
 	return m
 }
 
-- 
2.43.0


From e6cd74784265f10bce55923b97929e6dffc25eff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:15 +0000
Subject: [PATCH 006/126] fix: Array.ToMapFromEntries relinks the entries of
 other maps, repeats keys, and rejects plain map entries

---
 internal/array.go | 36 ++++++++++--------------------------
 1 file changed, 10 insertions(+), 26 deletions(-)

diff --git a/internal/array.go b/internal/array.go
index 185efc8..6712f78 100644
--- a/internal/array.go
+++ b/internal/array.go
@@ -1331,38 +1331,22 @@ func (v *array) ToMap() dgo.Map {
 
 func (v *array) ToMapFromEntries() (dgo.Map, bool) {
 	ms := v.slice
-	top := len(ms)
-	tbl := make([]*hashNode, tableSizeFor(top))
-	hl := len(tbl) - 1
-	m := &hashMap{table: tbl, len: top, frozen: v.frozen}
+	m := MapWithCapacity(len(ms)).(*hashMap)
 
 	for i := range ms {
-		nd, ok := ms[i].(*hashNode)
-		if !ok {
-			var ea *array
-			if ea, ok = ms[i].(*array); ok && len(ea.slice) == 2 {
-				nd = &hashNode{mapEntry: mapEntry{key: ea.slice[0], value: ea.slice[1]}}
-			} else {
+		switch e := ms[i].(type) {
+		case dgo.MapEntry:
+			m.Put(e.Key(), e.Value())
+		case *array:
+			if len(e.slice) != 2 {
 				return nil, false
 			}
-		} else if nd.hashNext != nil {
-			// Copy node, it belongs to another map
-			c := *nd
-			c.next = nil // this one might not get assigned below
-			nd = &c
-		}
-
-		hk := hl & hash(nd.key.HashCode())
-		nd.hashNext = tbl[hk]
-		nd.prev = m.last
-		if m.first == nil {
-			m.first = nd
-		} else {
-			m.last.next = nd
+			m.Put(e.slice[0], e.slice[1])
+		default:
+			return nil, false
 		}
-		m.last = nd
-		tbl[hk] = nd
 	}
+	m.frozen = v.frozen
 	return m, true
 }
 
-- 
2.43.0


From d30004e4a4f92020c625dc93abf61c6178827a16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:06 +0000
Subject: [PATCH 007/126] fix: With, Merge, and Map on a frozen collection
 produce a frozen collection that holds mutable values

---
 internal/array.go | 6 +++++-
 internal/map.go   | 9 +++++++++
 2 files changed, 14 insertions(+), 1 deletion(-)

diff --git a/internal/array.go b/internal/array.go
index 6712f78..0156813 100644
--- a/internal/array.go
+++ b/internal/array.go
@@ -1141,7 +1141,11 @@ func (v *array) Map(mapper dgo.Mapper) dgo.Array {
 	a := v.slice
 	vs := make([]dgo.Value, len(a))
 	for i := range a {
-		vs[i] = Value(mapper(a[i]))
+		e := Value(mapper(a[i]))
+		if v.frozen {
+			e = frozenCopy(e)
+		}
+		vs[i] = e
 	}
 	return &array{slice: vs, frozen: v.frozen}
 }
diff --git a/internal/map.go b/internal/map.go
index 0338187..dcf9d08 100644
--- a/internal/map.go
+++ b/internal/map.go
@@ -573,6 +573,9 @@ func (g *hashMap) Map(mapper dgo.EntryMapper) dgo.Map {
 	g.resize(c, 0)
 	for e := c.first; e != nil; e = e.next {
 		e.value = Value(mapper(e))
+		if g.frozen {
+			e.copyFreeze()
+		}
 	}
 	return c
 }
@@ -585,6 +588,9 @@ func (g *hashMap) Merge(associations dgo.Map) dgo.Map {
 	if l == 0 {
 		return associations
 	}
+	if g.frozen {
+		associations = associations.FrozenCopy().(dgo.Map)
+	}
 	c := &hashMap{len: l}
 	g.resize(c, 0)
 	c.PutAll(associations)
@@ -794,6 +800,9 @@ func (g *hashMap) With(ki, vi interface{}) dgo.Map {
 	var c *hashMap
 	key := Value(ki)
 	val := Value(vi)
+	if g.frozen {
+		val = frozenCopy(val)
+	}
 	if g.table == nil {
 		c = &hashMap{table: make([]*hashNode, tableSizeFor(initialCapacity)), len: g.len}
 	} else {
-- 
2.43.0


From d4fad6d3f6b5414aef0ad46c95da555a58f8dba0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:09 +0000
Subject: [PATCH 008/126] fix: arrays returned by Array.With and
 Array.WithValues share storage with each other

---
 internal/array.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/internal/array.go b/internal/array.go
index 0156813..1d61a11 100644
--- a/internal/array.go
+++ b/internal/array.go
@@ -1402,7 +1402,7 @@ func (v *array) Pop() (dgo.Value, bool) {
 }
 
 func (v *array) With(vi interface{}) dgo.Array {
-	return &array{slice: append(v.slice, Value(vi)), frozen: v.frozen}
+	return v.WithValues(vi)
 }
 
 func (v *array) WithAll(values dgo.Iterable) dgo.Array {
@@ -1422,7 +1422,9 @@ func (v *array) WithValues(values ...interface{}) dgo.Array {
 	if len(values) == 0 {
 		return v
 	}
-	return &array{slice: append(v.slice, valueSlice(values, v.frozen)...), frozen: v.frozen}
+	// The capacity is limited to the length to ensure that the append creates a copy
+	l := len(v.slice)
+	return &array{slice: append(v.slice[:l:l], valueSlice(values, v.frozen)...), frozen: v.frozen}
 }
 
 // ReplaceNil performs an in-place replacement of nil interfaces with the NilValue
-- 
2.43.0


From e54fac98ff7c4b0abb708dd8c8df4ebcb541dde1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:18 +0000
Subject: [PATCH 009/126] fix: Array.WithAll on a frozen array produces a
 frozen array with thawed elements

---
 internal/array.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/internal/array.go b/internal/array.go
index 1d61a11..71fe7b7 100644
--- a/internal/array.go
+++ b/internal/array.go
@@ -1409,12 +1409,12 @@ func (v *array) WithAll(values dgo.Iterable) dgo.Array {
 	if values.Len() == 0 {
 		return v
 	}
-	c := v.Copy(false)
 	if v.frozen {
 		values = values.FrozenCopy().(dgo.Iterable)
 	}
+	c := &array{slice: util.SliceCopy(v.slice)}
 	c.AddAll(values)
-	c.(*array).frozen = v.frozen
+	c.frozen = v.frozen
 	return c
 }
 
-- 
2.43.0


From c4922de36d8ca57a86483a27b3bbaf387fe91620 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:21 +0000
Subject: [PATCH 010/126] fix: Array.Slice exposes unset positions beyond the
 end of the array

---
 internal/array.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/array.go b/internal/array.go
index 71fe7b7..ecc8167 100644
--- a/internal/array.go
+++ b/internal/array.go
@@ -1277,7 +1277,7 @@ func (v *array) Slice(i, j int) dgo.Array {
 	if v.frozen && i == 0 && j == len(v.slice) {
 		return v
 	}
-	ss := v.slice[i:j]
+	ss := v.slice[i:j:len(v.slice)]
 	if !v.frozen {
 		// a copy is needed. Two non frozen arrays cannot share the same slice storage
 		ss = util.SliceCopy(ss)
-- 
2.43.0


From 1c9d6f093d7766ea40e8bc6a2f9bc59c5498a018 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:52 +0000
Subject: [PATCH 011/126] fix: Array.ContainsAll only considers the first
 elements of the receiver

---
 internal/array.go   | 19 +++++++------------
 internal/ternary.go |  2 +-
 2 files changed, 8 insertions(+), 13 deletions(-)

diff --git a/internal/array.go b/internal/array.go
index ecc8167..deb9597 100644
--- a/internal/array.go
+++ b/internal/array.go
@@ -977,23 +977,18 @@ func (v *array) deepContainsAll(seen []dgo.Value, other dgo.Iterable) bool {
 	// Keep track of elements that have been found equal using a copy
 	// where such elements are set to nil. This avoids excessive calls
 	// to Equals
-	for i := range vs {
+	n := len(vs)
+	for i := 0; i < l && n > 0; i++ {
 		ea := a[i]
-		f := false
 		for j := range vs {
-			if be := vs[j]; be != nil {
-				if equals(seen, be, ea) {
-					vs[j] = nil
-					f = true
-					break
-				}
+			if be := vs[j]; be != nil && equals(seen, be, ea) {
+				vs[j] = nil
+				n--
+				break
 			}
 		}
-		if !f {
-			return false
-		}
 	}
-	return true
+	return n == 0
 }
 
 func (v *array) Each(actor dgo.Consumer) {
diff --git a/internal/ternary.go b/internal/ternary.go
index aeddc80..4785120 100644
--- a/internal/ternary.go
+++ b/internal/ternary.go
@@ -153,7 +153,7 @@ func (t *allOfValueType) DeepAssignable(guard dgo.RecursionGuard, other dgo.Type
 	if ot, ok := other.(*allOfValueType); ok {
 		// Safe since explicit values only are assignable to themselves and excess elements
 		// in other only adds to the constraint
-		return (*array)(t).ContainsAll((*array)(ot))
+		return (*array)(ot).ContainsAll((*array)(t))
 	}
 	if ot, ok := other.(*allOfType); ok {
 		return lessRestrictive(guard, typeSlice(ts, valueAsType), typeSlice(ot.slice, typeAsType))
-- 
2.43.0


From 588434ba3d80a4a6e446ead63374736efca70ef2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:25 +0000
Subject: [PATCH 012/126] fix: an Array created from a []dgo.Value with unset
 positions has unset positions

---
 internal/array.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/internal/array.go b/internal/array.go
index deb9597..9320275 100644
--- a/internal/array.go
+++ b/internal/array.go
@@ -733,6 +733,7 @@ func ArrayFromReflected(vr reflect.Value, frozen bool) dgo.Value {
 			if frozen {
 				arr = util.SliceCopy(arr)
 			}
+			ReplaceNil(arr)
 		}
 	}
 
-- 
2.43.0


From 5316621ec50779af4be03322b951fe20ee6497d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:28 +0000
Subject: [PATCH 013/126] fix: a frozen Map created from a go map holds mutable
 values

---
 internal/map.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/internal/map.go b/internal/map.go
index dcf9d08..60f4339 100644
--- a/internal/map.go
+++ b/internal/map.go
@@ -287,7 +287,11 @@ func FromReflectedMap(rm reflect.Value, frozen bool) dgo.Value {
 	se := make([][2]dgo.Value, len(keys))
 	for i := range keys {
 		key := keys[i]
-		se[i] = [2]dgo.Value{ValueFromReflected(key), ValueFromReflected(rm.MapIndex(key))}
+		val := ValueFromReflected(rm.MapIndex(key))
+		if frozen {
+			val = frozenCopy(val)
+		}
+		se[i] = [2]dgo.Value{frozenCopy(ValueFromReflected(key)), val}
 	}
 
 	// Sort by key to always get predictable order
-- 
2.43.0


From 60a6fdc683d79f9c091a452d9eb144659dabd14b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:10 +0000
Subject: [PATCH 014/126] fix: the map view of a go struct exposes fields that
 are unexported or promoted

---
 internal/struct.go | 70 ++++++++++++++++++++++++----------------------
 1 file changed, 36 insertions(+), 34 deletions(-)

diff --git a/internal/struct.go b/internal/struct.go
index 6c177c9..90e064e 100644
--- a/internal/struct.go
+++ b/internal/struct.go
@@ -18,40 +18,43 @@ type (
 	}
 )
 
-func (v *structVal) AppendTo(w dgo.Indenter) {
-	appendMapTo(v, w)
-}
-
-func (v *structVal) All(predicate dgo.EntryPredicate) bool {
+// eachField calls the given function with the name and value of each exported field until it returns false
+func (v *structVal) eachField(f func(name string, value reflect.Value) bool) bool {
 	rv := v.rs
 	rt := rv.Type()
 	for i, n := 0, rt.NumField(); i < n; i++ {
-		if !predicate(&mapEntry{&hstring{s: rt.Field(i).Name}, ValueFromReflected(rv.Field(i))}) {
+		if sf := rt.Field(i); sf.PkgPath == `` && !f(sf.Name, rv.Field(i)) {
 			return false
 		}
 	}
 	return true
 }
 
-func (v *structVal) AllKeys(predicate dgo.Predicate) bool {
-	rv := v.rs
-	rt := rv.Type()
-	for i, n := 0, rt.NumField(); i < n; i++ {
-		if !predicate(&hstring{s: rt.Field(i).Name}) {
-			return false
-		}
+// field returns the exported field with the given name or an invalid value if no such field exists. Fields that
+// are promoted from an embedded struct are not considered.
+func (v *structVal) field(name string) reflect.Value {
+	if sf, ok := v.rs.Type().FieldByName(name); ok && sf.PkgPath == `` && len(sf.Index) == 1 {
+		return v.rs.Field(sf.Index[0])
 	}
-	return true
+	return reflect.Value{}
+}
+
+func (v *structVal) AppendTo(w dgo.Indenter) {
+	appendMapTo(v, w)
+}
+
+func (v *structVal) All(predicate dgo.EntryPredicate) bool {
+	return v.eachField(func(name string, value reflect.Value) bool {
+		return predicate(&mapEntry{&hstring{s: name}, ValueFromReflected(value)})
+	})
+}
+
+func (v *structVal) AllKeys(predicate dgo.Predicate) bool {
+	return v.eachField(func(name string, _ reflect.Value) bool { return predicate(&hstring{s: name}) })
 }
 
 func (v *structVal) AllValues(predicate dgo.Predicate) bool {
-	rv := v.rs
-	for i, n := 0, rv.NumField(); i < n; i++ {
-		if !predicate(ValueFromReflected(rv.Field(i))) {
-			return false
-		}
-	}
-	return true
+	return v.eachField(func(_ string, value reflect.Value) bool { return predicate(ValueFromReflected(value)) })
 }
 
 func (v *structVal) Any(predicate dgo.EntryPredicate) bool {
@@ -68,7 +71,7 @@ func (v *structVal) AnyValue(predicate dgo.Predicate) bool {
 
 func (v *structVal) ContainsKey(key interface{}) bool {
 	if s, ok := stringKey(key); ok {
-		return v.rs.FieldByName(s).IsValid()
+		return v.field(s).IsValid()
 	}
 	return false
 }
@@ -185,15 +188,14 @@ func (v *structVal) ThawedCopy() dgo.Value {
 }
 
 func (v *structVal) Find(predicate dgo.EntryPredicate) dgo.MapEntry {
-	rv := v.rs
-	rt := rv.Type()
-	for i, n := 0, rt.NumField(); i < n; i++ {
-		e := &mapEntry{&hstring{s: rt.Field(i).Name}, ValueFromReflected(rv.Field(i))}
+	var found dgo.MapEntry
+	v.All(func(e dgo.MapEntry) bool {
 		if predicate(e) {
-			return e
+			found = e
 		}
-	}
-	return nil
+		return found == nil
+	})
+	return found
 }
 
 func stringKey(key interface{}) (string, bool) {
@@ -208,8 +210,7 @@ func stringKey(key interface{}) (string, bool) {
 
 func (v *structVal) Get(key interface{}) dgo.Value {
 	if s, ok := stringKey(key); ok {
-		rv := v.rs
-		fv := rv.FieldByName(s)
+		fv := v.field(s)
 		if fv.IsValid() {
 			return ValueFromReflected(fv)
 		}
@@ -222,7 +223,9 @@ func (v *structVal) Keys() dgo.Array {
 }
 
 func (v *structVal) Len() int {
-	return v.rs.NumField()
+	n := 0
+	v.eachField(func(string, reflect.Value) bool { n++; return true })
+	return n
 }
 
 func (v *structVal) Map(mapper dgo.EntryMapper) dgo.Map {
@@ -249,8 +252,7 @@ func (v *structVal) Put(key, value interface{}) dgo.Value {
 		panic(frozenMap(`Put`))
 	}
 	if s, ok := stringKey(key); ok {
-		rv := v.rs
-		fv := rv.FieldByName(s)
+		fv := v.field(s)
 		if fv.IsValid() {
 			old := ValueFromReflected(fv)
 			ReflectTo(Value(value), fv)
-- 
2.43.0


From 503427893acd3b3c99172964c94437a2347779ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:34 +0000
Subject: [PATCH 015/126] fix: copies of a map that is backed by a go struct
 share mutable content with the struct

---
 internal/struct.go | 67 +++++++++++++++++++++++-----------------------
 1 file changed, 34 insertions(+), 33 deletions(-)

diff --git a/internal/struct.go b/internal/struct.go
index 90e064e..31c1ef2 100644
--- a/internal/struct.go
+++ b/internal/struct.go
@@ -83,10 +83,29 @@ func (v *structVal) Copy(frozen bool) dgo.Map {
 	if frozen {
 		return v.FrozenCopy().(dgo.Map)
 	}
-	// Thaw: Perform a by-value copy of the frozen struct
-	rs := reflect.New(v.rs.Type()).Elem() // create and dereference pointer to a zero value
-	rs.Set(v.rs)                          // copy v.rs to the zero value
-	return &structVal{rs: rs, frozen: false}
+	return v.ThawedCopy().(dgo.Map)
+}
+
+// copyStruct returns an addressable copy of the struct. Values that could be shared between the struct and its copy
+// are replaced using the given copier.
+func (v *structVal) copyStruct(copier func(dgo.Freezable) dgo.Value) reflect.Value {
+	c := &structVal{rs: reflect.New(v.rs.Type()).Elem()}
+	c.rs.Set(v.rs)
+	c.eachField(func(_ string, fv reflect.Value) bool {
+		if f, ok := ValueFromReflected(fv).(dgo.Freezable); ok {
+			ReflectTo(copier(f), fv)
+		} else if fv.Kind() == reflect.Ptr && !fv.IsNil() && isBasic(fv.Type().Elem().Kind()) {
+			p := reflect.New(fv.Type().Elem())
+			p.Elem().Set(fv.Elem())
+			fv.Set(p)
+		}
+		return true
+	})
+	return c.rs
+}
+
+func isBasic(k reflect.Kind) bool {
+	return k >= reflect.Bool && k <= reflect.Float64 || k == reflect.String
 }
 
 func (v *structVal) Each(actor dgo.Consumer) {
@@ -110,6 +129,10 @@ func (v *structVal) Equals(other interface{}) bool {
 }
 
 func (v *structVal) GoStruct() interface{} {
+	if v.frozen {
+		// Don't expose pointer to frozen struct
+		return v.copyStruct(dgo.Freezable.FrozenCopy).Addr().Interface()
+	}
 	return v.rs.Addr().Interface()
 }
 
@@ -137,15 +160,15 @@ func (v *structVal) deepHashCode(seen []dgo.Value) int {
 }
 
 func (v *structVal) Freeze() {
-	// Perform a shallow copy of the struct
 	if !v.frozen {
 		v.frozen = true
-		v.rs = reflect.ValueOf(v.rs.Interface())
 		v.EachValue(func(e dgo.Value) {
 			if f, ok := e.(dgo.Freezable); ok {
 				f.Freeze()
 			}
 		})
+		// The original struct remains mutable so a copy is needed
+		v.rs = v.copyStruct(dgo.Freezable.FrozenCopy)
 	}
 }
 
@@ -158,33 +181,11 @@ func (v *structVal) FrozenCopy() dgo.Value {
 		return v
 	}
 
-	// Perform a by-value copy of the struct
-	rs := reflect.New(v.rs.Type()).Elem() // create and dereference pointer to a zero value
-	rs.Set(v.rs)                          // copy v.rs to the zero value
-
-	for i, n := 0, rs.NumField(); i < n; i++ {
-		ef := rs.Field(i)
-		ev := ValueFromReflected(ef)
-		if f, ok := ev.(dgo.Freezable); ok && !f.Frozen() {
-			ReflectTo(f.FrozenCopy(), ef)
-		}
-	}
-	return &structVal{rs: rs, frozen: true}
+	return &structVal{rs: v.copyStruct(dgo.Freezable.FrozenCopy), frozen: true}
 }
 
 func (v *structVal) ThawedCopy() dgo.Value {
-	// Perform a by-value copy of the struct
-	rs := reflect.New(v.rs.Type()).Elem() // create and dereference pointer to a zero value
-	rs.Set(v.rs)                          // copy v.rs to the zero value
-
-	for i, n := 0, rs.NumField(); i < n; i++ {
-		ef := rs.Field(i)
-		ev := ValueFromReflected(ef)
-		if f, ok := ev.(dgo.Freezable); ok {
-			ReflectTo(f.ThawedCopy(), ef)
-		}
-	}
-	return &structVal{rs: rs, frozen: false}
+	return &structVal{rs: v.copyStruct(dgo.Freezable.ThawedCopy), frozen: false}
 }
 
 func (v *structVal) Find(predicate dgo.EntryPredicate) dgo.MapEntry {
@@ -270,12 +271,12 @@ func (v *structVal) ReflectTo(value reflect.Value) {
 	if value.Kind() == reflect.Ptr {
 		if v.frozen {
 			// Don't expose pointer to frozen struct
-			rs := reflect.New(v.rs.Type()) // create pointer to a zero value
-			rs.Elem().Set(v.rs)            // copy v.rs to the zero value
-			value.Set(rs)
+			value.Set(v.copyStruct(dgo.Freezable.FrozenCopy).Addr())
 		} else {
 			value.Set(v.rs.Addr())
 		}
+	} else if v.frozen {
+		value.Set(v.copyStruct(dgo.Freezable.FrozenCopy))
 	} else {
 		// copy struct by value
 		value.Set(v.rs)
-- 
2.43.0


From 562609c616be33fab6a758908fe6e36e82466a32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:54 +0000
Subject: [PATCH 016/126] fix: maps derived from a frozen map that is backed by
 a go struct hold mutable values

---
 internal/struct.go | 21 ++++++++++++---------
 1 file changed, 12 insertions(+), 9 deletions(-)

diff --git a/internal/struct.go b/internal/struct.go
index 31c1ef2..82bf358 100644
--- a/internal/struct.go
+++ b/internal/struct.go
@@ -234,8 +234,7 @@ func (v *structVal) Map(mapper dgo.EntryMapper) dgo.Map {
 	for e := c.first; e != nil; e = e.next {
 		e.value = Value(mapper(e))
 	}
-	c.frozen = v.frozen
-	return c
+	return v.derived(c)
 }
 
 func (v *structVal) Merge(associations dgo.Map) dgo.Map {
@@ -244,8 +243,7 @@ func (v *structVal) Merge(associations dgo.Map) dgo.Map {
 	}
 	c := v.toHashMap()
 	c.PutAll(associations)
-	c.frozen = v.frozen && associations.Frozen()
-	return c
+	return v.derived(c)
 }
 
 func (v *structVal) Put(key, value interface{}) dgo.Value {
@@ -312,8 +310,7 @@ func (v *structVal) Values() dgo.Array {
 func (v *structVal) With(key, value interface{}) dgo.Map {
 	c := v.toHashMap()
 	c.Put(key, value)
-	c.frozen = v.frozen
-	return c
+	return v.derived(c)
 }
 
 func (v *structVal) Without(key interface{}) dgo.Map {
@@ -322,14 +319,20 @@ func (v *structVal) Without(key interface{}) dgo.Map {
 	}
 	c := v.toHashMap()
 	c.Remove(key)
-	c.frozen = v.frozen
-	return c
+	return v.derived(c)
 }
 
 func (v *structVal) WithoutAll(keys dgo.Array) dgo.Map {
 	c := v.toHashMap()
 	c.RemoveAll(keys)
-	c.frozen = v.frozen
+	return v.derived(c)
+}
+
+// derived returns the given map, which was derived from this struct, or a frozen copy of it if this struct is frozen.
+func (v *structVal) derived(c *hashMap) dgo.Map {
+	if v.frozen {
+		return c.Copy(true)
+	}
 	return c
 }
 
-- 
2.43.0


From 4c44ebd313dbf51aaa929560033fa22d700d536f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:11 +0000
Subject: [PATCH 017/126] fix: the values of a map that is backed by a go
 struct cannot be obtained when one of them is native

---
 internal/struct.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/internal/struct.go b/internal/struct.go
index 82bf358..71e2c1a 100644
--- a/internal/struct.go
+++ b/internal/struct.go
@@ -304,7 +304,9 @@ func (v *structVal) Type() dgo.Type {
 }
 
 func (v *structVal) Values() dgo.Array {
-	return arrayFromIterator(v.Len(), v.EachValue)
+	vs := make([]dgo.Value, 0, v.Len())
+	v.EachValue(func(e dgo.Value) { vs = append(vs, e) })
+	return &array{slice: vs, frozen: v.frozen}
 }
 
 func (v *structVal) With(key, value interface{}) dgo.Map {
-- 
2.43.0


From c3a8374e37edf9ea729defa8256b50ced2cb5b83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:12 +0000
Subject: [PATCH 018/126] fix: a map created from a go struct that is passed by
 value cannot be modified

---
 internal/map.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/internal/map.go b/internal/map.go
index 60f4339..d660063 100644
--- a/internal/map.go
+++ b/internal/map.go
@@ -253,7 +253,10 @@ func mapFromArgs(args []interface{}, frozen bool) dgo.Map {
 				return FromReflectedStruct(re)
 			}
 		case reflect.Struct:
-			return FromReflectedStruct(rm)
+			// The struct was passed by value. An addressable copy is needed
+			rs := reflect.New(rm.Type()).Elem()
+			rs.Set(rm)
+			return FromReflectedStruct(rs)
 		}
 		panic(fmt.Errorf(`illegal argument: %t is not a map, a struct, or an array with even number of elements`, a0))
 	case l%2 == 0:
-- 
2.43.0


From c3fda3629d7286072cfd160763d2aa655d109119 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:32 +0000
Subject: [PATCH 019/126] fix: a frozen collection that holds an entry of a
 mutable map changes when the map changes

---
 internal/map.go | 26 ++++++++++++++++++++++++--
 1 file changed, 24 insertions(+), 2 deletions(-)

diff --git a/internal/map.go b/internal/map.go
index d660063..3796d71 100644
--- a/internal/map.go
+++ b/internal/map.go
@@ -623,7 +623,7 @@ func (g *hashMap) Put(ki, vi interface{}) dgo.Value {
 	for e := tbl[hk]; e != nil; e = e.hashNext {
 		if k.Equals(e.key) {
 			old := e.value
-			e.value = v
+			g.replaceValue(hk, e, v)
 			return old
 		}
 	}
@@ -646,6 +646,28 @@ func (g *hashMap) Put(ki, vi interface{}) dgo.Value {
 	return nil
 }
 
+// replaceValue replaces the given entry, found in the given table slot, with an entry that has the same key and the
+// given value. The entry isn't modified since it may have been retained, possibly by a frozen collection, when it was
+// passed to an actor or returned from a find.
+func (g *hashMap) replaceValue(slot int, e *hashNode, v dgo.Value) {
+	ne := &hashNode{mapEntry: mapEntry{key: e.key, value: v}, hashNext: e.hashNext, next: e.next, prev: e.prev}
+	p := &g.table[slot]
+	for *p != e {
+		p = &(*p).hashNext
+	}
+	*p = ne
+	if e.prev == nil {
+		g.first = ne
+	} else {
+		e.prev.next = ne
+	}
+	if e.next == nil {
+		g.last = ne
+	} else {
+		e.next.prev = ne
+	}
+}
+
 func (g *hashMap) PutAll(associations dgo.Map) {
 	al := associations.Len()
 	if al == 0 {
@@ -667,7 +689,7 @@ func (g *hashMap) PutAll(associations dgo.Map) {
 		hk := (len(tbl) - 1) & hash(key.HashCode())
 		for e := tbl[hk]; e != nil; e = e.hashNext {
 			if key.Equals(e.key) {
-				e.value = val
+				g.replaceValue(hk, e, val)
 				return
 			}
 		}
-- 
2.43.0


From 464944609e97e482ca42ae94175665e90ed35b8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:36 +0000
Subject: [PATCH 020/126] fix: a frozen map entry can have a mutable key

---
 internal/map.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/map.go b/internal/map.go
index 3796d71..13b90af 100644
--- a/internal/map.go
+++ b/internal/map.go
@@ -74,7 +74,7 @@ func (t *exactEntryType) TypeIdentifier() dgo.TypeIdentifier {
 
 // NewMapEntry returns a new MapEntry instance with the given key and value
 func NewMapEntry(key, value interface{}) dgo.MapEntry {
-	return &mapEntry{Value(key), Value(value)}
+	return &mapEntry{frozenCopy(Value(key)), Value(value)}
 }
 
 func (t *exactEntryType) ExactValue() dgo.Value {
-- 
2.43.0


From 3f3f09f5cedffd5157f7e990c937f502a16f2096 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:09:45 +0000
Subject: [PATCH 021/126] fix: Arguments are not equal to themselves, to other
 Arguments, nor instances of array types

---
 internal/arguments.go | 13 ++++++++++++-
 internal/array.go     | 16 ++++++++--------
 2 files changed, 20 insertions(+), 9 deletions(-)

diff --git a/internal/arguments.go b/internal/arguments.go
index 71c078f..a90f2e8 100644
--- a/internal/arguments.go
+++ b/internal/arguments.go
@@ -15,10 +15,21 @@ func Arguments(values []interface{}) dgo.Arguments {
 
 // ArgumentsFromArray returns an Arguments instance backed by the given array
 func ArgumentsFromArray(values dgo.Array) dgo.Arguments {
-	a := values.(*array)
+	a, _ := toArray(values)
 	return &arguments{*a}
 }
 
+// toArray returns the array that the given value is, or in case of Arguments, embeds
+func toArray(value interface{}) (*array, bool) {
+	switch value := value.(type) {
+	case *array:
+		return value, true
+	case *arguments:
+		return &value.array, true
+	}
+	return nil, false
+}
+
 func (a *arguments) AssertSize(funcName string, min, max int) {
 	l := a.Len()
 	if min > l || l > max {
diff --git a/internal/array.go b/internal/array.go
index 9320275..d334380 100644
--- a/internal/array.go
+++ b/internal/array.go
@@ -235,7 +235,7 @@ func (t *sizedArrayType) Instance(value interface{}) bool {
 }
 
 func (t *sizedArrayType) DeepInstance(guard dgo.RecursionGuard, value interface{}) bool {
-	if ov, ok := value.(*array); ok {
+	if ov, ok := toArray(value); ok {
 		l := len(ov.slice)
 		return t.min <= l && l <= t.max && allInstance(guard, t.elementType, ov.slice)
 	}
@@ -562,7 +562,7 @@ func (t *tupleType) DeepInstance(guard dgo.RecursionGuard, value interface{}) bo
 }
 
 func tupleInstance(guard dgo.RecursionGuard, t dgo.TupleType, value interface{}) bool {
-	ov, ok := value.(*array)
+	ov, ok := toArray(value)
 	if !ok {
 		return false
 	}
@@ -840,7 +840,7 @@ func (v *array) AddAll(values dgo.Iterable) {
 		panic(frozenArray(`AddAll`))
 	}
 	a := v.slice
-	if ar, ok := values.(*array); ok {
+	if ar, ok := toArray(values); ok {
 		a = ar.AppendToSlice(a)
 	} else {
 		values.Each(func(e dgo.Value) { a = append(a, e) })
@@ -899,7 +899,7 @@ func (v *array) CompareTo(other interface{}) (int, bool) {
 }
 
 func (v *array) deepCompare(seen []dgo.Value, other deepCompare) (int, bool) {
-	ov, ok := other.(*array)
+	ov, ok := toArray(other)
 	if !ok {
 		return 0, false
 	}
@@ -969,7 +969,7 @@ func (v *array) deepContainsAll(seen []dgo.Value, other dgo.Iterable) bool {
 	}
 
 	var vs []dgo.Value
-	if oa, ok := other.(*array); ok {
+	if oa, ok := toArray(other); ok {
 		vs = util.SliceCopy(oa.slice)
 	} else {
 		vs = sliceFromIterable(other)
@@ -1011,7 +1011,7 @@ func (v *array) Equals(other interface{}) bool {
 }
 
 func (v *array) deepEqual(seen []dgo.Value, other deepEqual) bool {
-	if ov, ok := other.(*array); ok {
+	if ov, ok := toArray(other); ok {
 		return sliceEquals(seen, v.slice, ov.slice)
 	}
 	return false
@@ -1030,7 +1030,7 @@ func (v *array) Find(finder dgo.Mapper) interface{} {
 func (v *array) Flatten() dgo.Array {
 	a := v.slice
 	for i := range a {
-		if _, ok := a[i].(*array); ok {
+		if _, ok := toArray(a[i]); ok {
 			fs := make([]dgo.Value, i, len(a)*2)
 			copy(fs, a)
 			return &array{slice: flattenElements(a[i:], fs), frozen: v.frozen}
@@ -1042,7 +1042,7 @@ func (v *array) Flatten() dgo.Array {
 func flattenElements(elements, receiver []dgo.Value) []dgo.Value {
 	for i := range elements {
 		e := elements[i]
-		if a, ok := e.(*array); ok {
+		if a, ok := toArray(e); ok {
 			receiver = flattenElements(a.slice, receiver)
 		} else {
 			receiver = append(receiver, e)
-- 
2.43.0


From 38cb27a7001661b418b66464007ea82ae712ed35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:20:12 +0000
Subject: [PATCH 022/126] fix: composing an exact tuple, array, or struct type
 with nil panics

---
 internal/nil.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/internal/nil.go b/internal/nil.go
index 41635ca..6e51a74 100644
--- a/internal/nil.go
+++ b/internal/nil.go
@@ -63,6 +63,10 @@ func (t nilType) Equals(v interface{}) bool {
 	return t == v
 }
 
+func (t nilType) ExactValue() dgo.Value {
+	return Nil
+}
+
 func (t nilType) HashCode() int {
 	return int(1 + dgo.TiNil)
 }
-- 
2.43.0


From 49e0a640d119bf70ff181774cbbf584eabfe0aff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:20:16 +0000
Subject: [PATCH 023/126] fix: checking if a string is an instance of the dgo
 type declares the types that the string defines

---
 internal/string.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/internal/string.go b/internal/string.go
index f6cd983..5419f0a 100644
--- a/internal/string.go
+++ b/internal/string.go
@@ -121,7 +121,8 @@ func (t defaultDgoStringType) Instance(value interface{}) (ok bool) {
 					ok = false
 				}
 			}()
-			Parse(s)
+			// Aliases declared by s must not be added to the default aliases
+			DefaultAliases().Collect(func(aa dgo.AliasAdder) { ParseFile(aa, ``, s) })
 		}
 	}
 	return
-- 
2.43.0


From 5caa99e8ddd56482c803108253e79553daa34020 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:29:47 +0000
Subject: [PATCH 024/126] fix: the recursion guard of type checks mixes up
 unrelated pairs, arrays are checked without it and against the intersection
 of tuple elements

---
 dgo/primitive.go    |  6 ++---
 internal/array.go   | 17 ++++++++++++--
 internal/compare.go | 55 +++++++++++++++++++++++++++------------------
 internal/ternary.go |  6 +----
 internal/type.go    |  3 ---
 5 files changed, 52 insertions(+), 35 deletions(-)

diff --git a/dgo/primitive.go b/dgo/primitive.go
index 69d9454..a51714e 100644
--- a/dgo/primitive.go
+++ b/dgo/primitive.go
@@ -142,13 +142,13 @@ type (
 	}
 
 	// RecursionGuard guards against endless recursion when checking if one deep type is assignable to another.
-	// A Hit is detected once both a and b has been added more than once (can be on separate calls to Append). The
-	// RecursionGuard is in itself immutable.
+	// A Hit is detected once a and b has been appended together more than once. The RecursionGuard is in itself
+	// immutable.
 	RecursionGuard interface {
 		// Append creates a new RecursionGuard guaranteed to contain both a and b. The new instance is returned.
 		Append(a, b Value) RecursionGuard
 
-		// Hit returns true if both a and b has been appended more than once.
+		// Hit returns true if the same a and b has been appended together more than once.
 		Hit() bool
 
 		// Swap returns the guard with its two internal guards for a and b swapped.
diff --git a/internal/array.go b/internal/array.go
index d334380..0cc0563 100644
--- a/internal/array.go
+++ b/internal/array.go
@@ -191,8 +191,21 @@ func (t *sizedArrayType) DeepAssignable(guard dgo.RecursionGuard, other dgo.Type
 	switch ot := other.(type) {
 	case defaultArrayType:
 		return false // lacks size
-	case dgo.ArrayType:
-		return t.min <= ot.Min() && ot.Max() <= t.max && t.elementType.Assignable(ot.ElementType())
+	case dgo.TupleType:
+		if t.min <= ot.Min() && ot.Max() <= t.max {
+			if t.elementType.Equals(ot.ElementType()) {
+				return true
+			}
+			for i, n := 0, ot.Len(); i < n; i++ {
+				if !Assignable(guard, t.elementType, ot.Element(i)) {
+					return false
+				}
+			}
+			return true
+		}
+		return false
+	case *sizedArrayType:
+		return t.min <= ot.min && ot.max <= t.max && Assignable(guard, t.elementType, ot.elementType)
 	}
 	return CheckAssignableTo(guard, other, t)
 }
diff --git a/internal/compare.go b/internal/compare.go
index fc6b237..cd602d0 100644
--- a/internal/compare.go
+++ b/internal/compare.go
@@ -12,36 +12,47 @@ type deepEqual interface {
 	deepHashCode(seen []dgo.Value) int
 }
 
+// doubleSeen is an immutable linked list of the pairs that are being checked. It is hit when the last appended pair
+// is already in the list, which means that the outcome of the check of that pair depends on nothing but itself.
 type doubleSeen struct {
-	aSeen   []dgo.Value
-	bSeen   []dgo.Value
-	seenInA bool
-	seenInB bool
+	parent *doubleSeen
+	a      dgo.Value
+	b      dgo.Value
+	hit    bool
 }
 
 func (s *doubleSeen) Hit() bool {
-	return s.seenInA && s.seenInB
+	return s.hit
 }
 
 func (s *doubleSeen) Append(a, b dgo.Value) dgo.RecursionGuard {
-	if !s.seenInA {
-		s.seenInA = util.RecursionHit(s.aSeen, a)
+	c := &doubleSeen{parent: s, a: a, b: b, hit: s.hit}
+	for p := s; p != nil && !c.hit; p = p.parent {
+		c.hit = sameNode(p.a, a) && sameNode(p.b, b)
 	}
-	if !s.seenInB {
-		s.seenInB = util.RecursionHit(s.bSeen, b)
-	}
-	c := *s
-	if !c.seenInA {
-		c.aSeen = append(c.aSeen, a)
-	}
-	if !c.seenInB {
-		c.bSeen = append(c.bSeen, b)
-	}
-	return &c
+	return c
 }
 
 func (s *doubleSeen) Swap() dgo.RecursionGuard {
-	return &doubleSeen{seenInA: s.seenInB, seenInB: s.seenInA, aSeen: s.bSeen, bSeen: s.aSeen}
+	c := &doubleSeen{a: s.b, b: s.a, hit: s.hit}
+	if s.parent != nil {
+		c.parent = s.parent.Swap().(*doubleSeen)
+	}
+	return c
+}
+
+// sameNode returns true if a and b are the same instance or the exact types of the same instance. The latter must be
+// included since a collection creates its type on demand.
+func sameNode(a, b dgo.Value) bool {
+	if a == b {
+		return true
+	}
+	if at, ok := a.(dgo.ExactType); ok {
+		if bt, ok := b.(dgo.ExactType); ok && at.TypeIdentifier() == bt.TypeIdentifier() {
+			return at.ExactValue() == bt.ExactValue()
+		}
+	}
+	return false
 }
 
 type deepCompare interface {
@@ -62,7 +73,7 @@ func Assignable(guard dgo.RecursionGuard, a dgo.Type, b dgo.Type) bool {
 	_, ok = b.(dgo.DeepAssignable)
 	if ok {
 		if guard == nil {
-			guard = &doubleSeen{aSeen: []dgo.Value{a}, bSeen: []dgo.Value{b}}
+			guard = &doubleSeen{a: a, b: b}
 		} else {
 			guard = guard.Append(a, b)
 			if guard.Hit() {
@@ -84,10 +95,10 @@ func Instance(guard dgo.RecursionGuard, a dgo.Type, b interface{}) bool {
 	if ok {
 		bv := b.(dgo.Value)
 		if guard == nil {
-			guard = &doubleSeen{aSeen: []dgo.Value{a}, bSeen: []dgo.Value{bv}}
+			guard = &doubleSeen{a: a, b: bv}
 		} else {
 			guard = guard.Append(a, bv)
-			if guard.Hit() {
+			if guard.Hit() || a == bv { // a collection that is an instance of a type may hold that type
 				return true
 			}
 		}
diff --git a/internal/ternary.go b/internal/ternary.go
index 4785120..6ce099e 100644
--- a/internal/ternary.go
+++ b/internal/ternary.go
@@ -567,15 +567,11 @@ nextA:
 	}
 
 	// Extra entries in 'b' are allowed provided they don't lessen the constraint
-	var swg dgo.RecursionGuard
 	for ib := range bts {
 		if !matched[ib] {
 			tb := bts[ib]
-			if nil != guard && nil == swg {
-				swg = guard.Swap()
-			}
 			for ia := range ats {
-				if Assignable(swg, tb, ats[ia]) {
+				if Assignable(guard, tb, ats[ia]) {
 					return false
 				}
 			}
diff --git a/internal/type.go b/internal/type.go
index 07085ac..e108ebb 100644
--- a/internal/type.go
+++ b/internal/type.go
@@ -14,9 +14,6 @@ import (
 // argument. Otherwise, this goFunc returns false
 func CheckAssignableTo(guard dgo.RecursionGuard, t, other dgo.Type) bool {
 	if lt, ok := t.(dgo.ReverseAssignable); ok {
-		if guard != nil {
-			guard = guard.Swap()
-		}
 		return lt.AssignableTo(guard, other)
 	}
 	return false
-- 
2.43.0


From 6d775bd069390c784a51c08e18a7ee9cf26209e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:30:16 +0000
Subject: [PATCH 025/126] fix: variadic tuples are assignable from tuples with
 other variadic elements

---
 internal/array.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/array.go b/internal/array.go
index 0cc0563..346ee36 100644
--- a/internal/array.go
+++ b/internal/array.go
@@ -454,7 +454,7 @@ func tupleAssignableTuple(guard dgo.RecursionGuard, t, ot dgo.TupleType) bool {
 			return false
 		}
 	}
-	return true
+	return ov == nil || tv != nil && Assignable(guard, tv, ov)
 }
 
 func tupleAssignableArray(guard dgo.RecursionGuard, t dgo.TupleType, ot *sizedArrayType) bool {
-- 
2.43.0


From 28470d1cd39c7e341225006138169a72bd43b781 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:30:48 +0000
Subject: [PATCH 026/126] fix: map types are assignable from struct types and
 exact maps with other entries

---
 internal/map.go       | 20 +++++++++++++++-----
 internal/mapstruct.go |  5 ++---
 2 files changed, 17 insertions(+), 8 deletions(-)

diff --git a/internal/map.go b/internal/map.go
index 13b90af..9e37a22 100644
--- a/internal/map.go
+++ b/internal/map.go
@@ -1059,11 +1059,21 @@ func (t *sizedMapType) Assignable(other dgo.Type) bool {
 }
 
 func (t *sizedMapType) DeepAssignable(guard dgo.RecursionGuard, other dgo.Type) bool {
-	if ot, ok := other.(dgo.MapType); ok {
-		return t.min <= ot.Min() && ot.Max() <= t.max &&
-			Assignable(guard, t.keyType, ot.KeyType()) && Assignable(guard, t.valueType, ot.ValueType())
+	ot, ok := other.(dgo.MapType)
+	if !ok {
+		return CheckAssignableTo(guard, other, t)
+	}
+	if t.min > ot.Min() || ot.Max() > t.max {
+		return false
+	}
+	if st, ok := ot.(dgo.StructMapType); ok {
+		ok = !st.Additional() || Assignable(guard, t.keyType, DefaultAnyType) && Assignable(guard, t.valueType, DefaultAnyType)
+		st.Each(func(e dgo.StructMapEntry) {
+			ok = ok && Assignable(guard, t.keyType, e.Key().(dgo.Type)) && Assignable(guard, t.valueType, e.Value().(dgo.Type))
+		})
+		return ok
 	}
-	return CheckAssignableTo(guard, other, t)
+	return Assignable(guard, t.keyType, ot.KeyType()) && Assignable(guard, t.valueType, ot.ValueType())
 }
 
 func (t *sizedMapType) Equals(other interface{}) bool {
@@ -1179,7 +1189,7 @@ const DefaultMapType = defaultMapType(0)
 
 func (t defaultMapType) Assignable(other dgo.Type) bool {
 	switch other.(type) {
-	case defaultMapType, *sizedMapType, *exactMapType:
+	case defaultMapType, *sizedMapType, *exactMapType, *structType:
 		return true
 	}
 	return CheckAssignableTo(nil, other, t)
diff --git a/internal/mapstruct.go b/internal/mapstruct.go
index ccee25b..9b8d9b8 100644
--- a/internal/mapstruct.go
+++ b/internal/mapstruct.go
@@ -298,11 +298,10 @@ func (t *structType) Len() int {
 }
 
 func (t *structType) Max() int {
-	m := len(t.required)
-	if m == 0 || t.additional {
+	if t.additional {
 		return math.MaxInt64
 	}
-	return m
+	return len(t.required)
 }
 
 func (t *structType) Min() int {
-- 
2.43.0


From 39f15adbe5ea0e470ea31a7bcdb241542b5c29b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:31:08 +0000
Subject: [PATCH 027/126] fix: sized string types are assignable from case
 insensitive strings and dgo strings of other sizes

---
 internal/string.go | 31 +++++++++++++++++++++++++++++--
 1 file changed, 29 insertions(+), 2 deletions(-)

diff --git a/internal/string.go b/internal/string.go
index 5419f0a..328f997 100644
--- a/internal/string.go
+++ b/internal/string.go
@@ -7,6 +7,8 @@ import (
 	"regexp"
 	"strconv"
 	"strings"
+	"unicode"
+	"unicode/utf8"
 
 	"github.com/lyraproj/dgo/dgo"
 	"github.com/lyraproj/dgo/util"
@@ -300,6 +302,30 @@ func CiStringType(si interface{}) dgo.StringType {
 	return et
 }
 
+// foldedSize returns the smallest and largest size of the strings that are equal to the given string under Unicode
+// case-folding.
+func foldedSize(s string) (min, max int) {
+	for _, r := range s {
+		lo := utf8.RuneLen(r)
+		hi := lo
+		if r == utf8.RuneError {
+			lo = 1 // an invalid byte is considered equal to the replacement character
+		}
+		for f := unicode.SimpleFold(r); f != r; f = unicode.SimpleFold(f) {
+			n := utf8.RuneLen(f)
+			if n < lo {
+				lo = n
+			}
+			if n > hi {
+				hi = n
+			}
+		}
+		min += lo
+		max += hi
+	}
+	return
+}
+
 func (t *ciStringType) Assignable(other dgo.Type) bool {
 	if ot, ok := other.(*exactStringType); ok {
 		return strings.EqualFold(t.value.s, ot.value.s)
@@ -460,11 +486,12 @@ func SizedStringType(min, max int) dgo.StringType {
 func (t *sizedStringType) Assignable(other dgo.Type) bool {
 	switch ot := other.(type) {
 	case defaultDgoStringType:
-		return t.min <= 1
+		return t.min <= 1 && t.max == math.MaxInt64
 	case *exactStringType:
 		return t.IsInstance(ot.value.s)
 	case *ciStringType:
-		return t.IsInstance(ot.value.s)
+		min, max := foldedSize(ot.value.s)
+		return t.min <= min && max <= t.max
 	case *sizedStringType:
 		return t.min <= ot.min && t.max >= ot.max
 	}
-- 
2.43.0


From 921f0a120256be2957b6a18929e81d846fea001f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:31:12 +0000
Subject: [PATCH 028/126] fix: a case insensitive string type does not accept
 its own string

---
 internal/string.go | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/internal/string.go b/internal/string.go
index 328f997..0c30efd 100644
--- a/internal/string.go
+++ b/internal/string.go
@@ -297,11 +297,23 @@ func CiStringType(si interface{}) dgo.StringType {
 	} else {
 		s = si.(string)
 	}
-	et := &ciStringType{exactStringType: exactStringType{value: makeHString(strings.ToLower(s))}}
+	et := &ciStringType{exactStringType: exactStringType{value: makeHString(strings.Map(foldedLower, s))}}
 	et.ExactType = et
 	return et
 }
 
+// foldedLower returns the lower case of the given rune when that is the same rune under Unicode case-folding and
+// otherwise the rune itself.
+func foldedLower(r rune) rune {
+	l := unicode.ToLower(r)
+	for f := unicode.SimpleFold(r); f != r; f = unicode.SimpleFold(f) {
+		if f == l {
+			return l
+		}
+	}
+	return r
+}
+
 // foldedSize returns the smallest and largest size of the strings that are equal to the given string under Unicode
 // case-folding.
 func foldedSize(s string) (min, max int) {
-- 
2.43.0


From d21a51763f79a06fa1af08d51793ea0bcfd93128 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:31:42 +0000
Subject: [PATCH 029/126] fix: a struct type without additional entries is
 assignable from one with additional entries

---
 internal/mapstruct.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/mapstruct.go b/internal/mapstruct.go
index 9b8d9b8..84879aa 100644
--- a/internal/mapstruct.go
+++ b/internal/mapstruct.go
@@ -197,7 +197,7 @@ func (t *structType) DeepAssignable(guard dgo.RecursionGuard, other dgo.Type) bo
 				return false
 			}
 		}
-		return t.additional || oc == len(oks)
+		return t.additional || !ot.additional && oc == len(oks)
 	case *exactMapType:
 		ov := ot.value
 		return Instance(guard, t, ov)
-- 
2.43.0


From 4177c8655a36f4aef1469c094b7955790beba0e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:33:30 +0000
Subject: [PATCH 030/126] fix: not and oneOf types are assignable from types
 with instances that they do not accept

---
 internal/disjoint.go | 95 ++++++++++++++++++++++++++++++++++++++++++++
 internal/not.go      | 22 ++++++----
 internal/string.go   | 13 +++++-
 internal/ternary.go  | 21 +++++-----
 4 files changed, 131 insertions(+), 20 deletions(-)
 create mode 100644 internal/disjoint.go

diff --git a/internal/disjoint.go b/internal/disjoint.go
new file mode 100644
index 0000000..e2df4b3
--- /dev/null
+++ b/internal/disjoint.go
@@ -0,0 +1,95 @@
+package internal
+
+import (
+	"github.com/lyraproj/dgo/dgo"
+)
+
+// disjoint returns true if it can be established that no value is an instance of both a and b. The guard is the guard of
+// the check for assignability that needs to know.
+func disjoint(guard dgo.RecursionGuard, a, b dgo.Type) bool {
+	if et, ok := b.(dgo.ExactType); ok && dgo.IsExact(b) {
+		return !a.Instance(et.ExactValue())
+	}
+	if et, ok := a.(dgo.ExactType); ok && dgo.IsExact(a) {
+		return !b.Instance(et.ExactValue())
+	}
+	if ts, ok := alternatives(a); ok {
+		return disjointCount(guard, ts, b) == len(ts)
+	}
+	if ts, ok := alternatives(b); ok {
+		return disjointCount(guard, ts, a) == len(ts)
+	}
+	return disjointKinds(a, b) || disjointConstraint(guard, a, b) || disjointConstraint(guard, b, a)
+}
+
+// disjointCount returns the number of types in the slice that are disjoint from t
+func disjointCount(guard dgo.RecursionGuard, ts []dgo.Value, t dgo.Type) int {
+	n := 0
+	for i := range ts {
+		if disjoint(guard, ts[i].(dgo.Type), t) {
+			n++
+		}
+	}
+	return n
+}
+
+// alternatives returns types such that an instance of the given type is an instance of at least one of them
+func alternatives(t dgo.Type) ([]dgo.Value, bool) {
+	switch t := t.(type) {
+	case *anyOfType:
+		return t.slice, true
+	case *oneOfType:
+		return t.slice, true
+	}
+	return nil, false
+}
+
+// disjointConstraint returns true if a constraint of a, that all its instances must fulfill, excludes all instances of b
+func disjointConstraint(guard dgo.RecursionGuard, a, b dgo.Type) bool {
+	switch a := a.(type) {
+	case *notType:
+		return Assignable(guard, a.negated, b)
+	case *allOfType:
+		return disjointCount(guard, a.slice, b) > 0
+	case *integerType:
+		if b, ok := b.(*integerType); ok {
+			return a.max < b.min || a.max == b.min && !a.inclusive
+		}
+	case *floatType:
+		if b, ok := b.(*floatType); ok {
+			return a.max < b.min || a.max == b.min && !a.inclusive
+		}
+	case dgo.SizedType:
+		if b, ok := b.(dgo.SizedType); ok {
+			return a.Max() < b.Min()
+		}
+	}
+	return false
+}
+
+// disjointKinds returns true if the instances of a are of another kind than the instances of b
+func disjointKinds(a, b dgo.Type) bool {
+	ak := instanceKind(a.TypeIdentifier())
+	bk := instanceKind(b.TypeIdentifier())
+	return ak != bk && ak != dgo.TiAny && bk != dgo.TiAny
+}
+
+// instanceKind returns the identifier of the unconstrained type for the instances of a type, or TiAny if the instances
+// can be of different kinds.
+func instanceKind(ti dgo.TypeIdentifier) dgo.TypeIdentifier {
+	switch ti {
+	case dgo.TiBinary, dgo.TiBoolean, dgo.TiError, dgo.TiFloat, dgo.TiInteger, dgo.TiMeta, dgo.TiRegexp, dgo.TiSensitive, dgo.TiTime, dgo.TiString, dgo.TiArray, dgo.TiMap:
+		return ti
+	case dgo.TiFloatRange:
+		return dgo.TiFloat
+	case dgo.TiIntegerRange:
+		return dgo.TiInteger
+	case dgo.TiCiString, dgo.TiDgoString, dgo.TiStringPattern, dgo.TiStringSized:
+		return dgo.TiString
+	case dgo.TiTuple:
+		return dgo.TiArray
+	case dgo.TiStruct:
+		return dgo.TiMap
+	}
+	return dgo.TiAny
+}
diff --git a/internal/not.go b/internal/not.go
index 2d0cae2..267a6d0 100644
--- a/internal/not.go
+++ b/internal/not.go
@@ -34,14 +34,18 @@ func (t *notType) HashCode() int {
 }
 
 func (t *notType) Assignable(other dgo.Type) bool {
+	return Assignable(nil, t, other)
+}
+
+func (t *notType) DeepAssignable(guard dgo.RecursionGuard, other dgo.Type) bool {
 	switch ot := other.(type) {
 	case *notType:
 		// Reverse order of Negated test
-		return ot.negated.Assignable(t.negated)
+		return Assignable(guard, ot.negated, t.negated)
 	case *anyOfType:
 		ts := ot.slice
 		for i := range ts {
-			if t.Assignable(ts[i].(dgo.Type)) {
+			if Assignable(guard, t, ts[i].(dgo.Type)) {
 				return true
 			}
 		}
@@ -49,16 +53,16 @@ func (t *notType) Assignable(other dgo.Type) bool {
 	case *allOfType:
 		ts := ot.slice
 		for i := range ts {
-			if !t.Assignable(ts[i].(dgo.Type)) {
+			if !Assignable(guard, t, ts[i].(dgo.Type)) {
 				return false
 			}
 		}
-		return true
+		return len(ts) > 0 || Assignable(guard, t, DefaultAnyType)
 	case *oneOfType:
 		f := false
 		ts := ot.slice
 		for i := range ts {
-			if t.Assignable(ts[i].(dgo.Type)) {
+			if Assignable(guard, t, ts[i].(dgo.Type)) {
 				if f {
 					return false
 				}
@@ -67,12 +71,16 @@ func (t *notType) Assignable(other dgo.Type) bool {
 		}
 		return f
 	default:
-		return !t.negated.Assignable(other)
+		return disjoint(guard, t.negated, other)
 	}
 }
 
 func (t *notType) Instance(value interface{}) bool {
-	return !t.negated.Instance(value)
+	return Instance(nil, t, value)
+}
+
+func (t *notType) DeepInstance(guard dgo.RecursionGuard, value interface{}) bool {
+	return !Instance(guard, t.negated, value)
 }
 
 func (t *notType) Operand() dgo.Type {
diff --git a/internal/string.go b/internal/string.go
index 0c30efd..9b01edd 100644
--- a/internal/string.go
+++ b/internal/string.go
@@ -355,6 +355,16 @@ func (t *ciStringType) Instance(v interface{}) bool {
 	return false
 }
 
+func (t *ciStringType) Max() int {
+	_, max := foldedSize(t.value.s)
+	return max
+}
+
+func (t *ciStringType) Min() int {
+	min, _ := foldedSize(t.value.s)
+	return min
+}
+
 func (t *ciStringType) New(arg dgo.Value) dgo.Value {
 	return newString(t, arg)
 }
@@ -502,8 +512,7 @@ func (t *sizedStringType) Assignable(other dgo.Type) bool {
 	case *exactStringType:
 		return t.IsInstance(ot.value.s)
 	case *ciStringType:
-		min, max := foldedSize(ot.value.s)
-		return t.min <= min && max <= t.max
+		return t.min <= ot.Min() && ot.Max() <= t.max
 	case *sizedStringType:
 		return t.min <= ot.min && t.max >= ot.max
 	}
diff --git a/internal/ternary.go b/internal/ternary.go
index 6ce099e..3324b91 100644
--- a/internal/ternary.go
+++ b/internal/ternary.go
@@ -65,6 +65,9 @@ func (t *allOfType) DeepAssignable(guard dgo.RecursionGuard, other dgo.Type) boo
 // AssignableTo returns true if the other type is assignable from all of the contained types.
 func (t *allOfType) AssignableTo(guard dgo.RecursionGuard, other dgo.Type) bool {
 	ts := t.slice
+	if len(ts) == 0 {
+		return Assignable(guard, other, DefaultAnyType)
+	}
 	for i := range ts {
 		if !Assignable(guard, other, ts[i].(dgo.Type)) {
 			return false
@@ -383,20 +386,16 @@ func (t *oneOfType) DeepAssignable(guard dgo.RecursionGuard, other dgo.Type) boo
 		_, ok := other.(*oneOfType)
 		return ok
 	}
-	found := false
+	if ot, ok := other.(*oneOfType); ok && t.Equals(ot) {
+		return true
+	}
 	for i := range ts {
-		if Assignable(guard, ts[i].(dgo.Type), other) {
-			if found {
-				found = false
-				break
-			}
-			found = true
+		if Assignable(guard, ts[i].(dgo.Type), other) && disjointCount(guard, ts, other) == len(ts)-1 {
+			// instances of other are instances of exactly one type
+			return true
 		}
 	}
-	if !found {
-		found = CheckAssignableTo(guard, other, t)
-	}
-	return found
+	return CheckAssignableTo(guard, other, t)
 }
 
 // AssignableTo returns true if the other type is assignable from all of the contained types
-- 
2.43.0


From efe2e3e8ae7c81736933ad0f636a4d703d5bbc28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:34:13 +0000
Subject: [PATCH 031/126] fix: the unconstrained function type only accepts
 variadic functions

---
 internal/function.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/function.go b/internal/function.go
index bf3bbb1..c57ba86 100644
--- a/internal/function.go
+++ b/internal/function.go
@@ -214,7 +214,7 @@ func (t *functionType) DeepAssignable(guard dgo.RecursionGuard, other dgo.Type)
 
 func functionTypeAssignable(guard dgo.RecursionGuard, t dgo.FunctionType, other dgo.Type) bool {
 	if ot, ok := other.(dgo.FunctionType); ok {
-		return t.Variadic() == ot.Variadic() &&
+		return t == DefaultFunctionType || t.Variadic() == ot.Variadic() &&
 			tupleAssignableTuple(guard, t.In(), ot.In()) &&
 			tupleAssignableTuple(guard, t.Out(), ot.Out())
 	}
-- 
2.43.0


From 82bfde7656fd4b6008f29c865d69639fb2e6bb4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:44:08 +0000
Subject: [PATCH 032/126] fix: types that are built from the same parts in
 another order have other hash codes, equality of tuple and function types is
 not symmetric

---
 internal/array.go    |  6 +++++-
 internal/function.go | 34 ++++++++++++++++++++++------------
 internal/map.go      |  2 +-
 internal/ternary.go  | 35 +++++++++++++++++++++++++++++------
 4 files changed, 57 insertions(+), 20 deletions(-)

diff --git a/internal/array.go b/internal/array.go
index 346ee36..b7aa017 100644
--- a/internal/array.go
+++ b/internal/array.go
@@ -318,7 +318,7 @@ func (t *exactArrayType) ElementTypes() dgo.Array {
 }
 
 func (t *exactArrayType) Generic() dgo.Type {
-	return &sizedArrayType{elementType: Generic(t.ElementType()), min: 0, max: math.MaxInt64}
+	return newArrayType(Generic(t.ElementType()), 0, math.MaxInt64)
 }
 
 func (t *exactArrayType) Len() int {
@@ -528,6 +528,10 @@ func (t *tupleType) deepEqual(seen []dgo.Value, other deepEqual) bool {
 }
 
 func tupleEquals(seen []dgo.Value, t dgo.TupleType, other interface{}) bool {
+	if _, ok := other.(dgo.ExactType); ok {
+		// the type of an array is only equal to the type of an equal array
+		return false
+	}
 	if ot, ok := other.(dgo.TupleType); ok {
 		n := t.Len()
 		if t.Variadic() == ot.Variadic() && n == ot.Len() {
diff --git a/internal/function.go b/internal/function.go
index c57ba86..1359df1 100644
--- a/internal/function.go
+++ b/internal/function.go
@@ -139,17 +139,19 @@ func (t exactFunctionType) DeepAssignable(guard dgo.RecursionGuard, other dgo.Ty
 }
 
 func (t exactFunctionType) Equals(other interface{}) bool {
-	if ot, ok := Value(other).(dgo.FunctionType); ok {
-		return t.In().Equals(ot.In()) && t.Out().Equals(ot.Out())
-	}
-	return false
+	return equals(nil, t, other)
+}
+
+func (t exactFunctionType) deepEqual(seen []dgo.Value, other deepEqual) bool {
+	return functionTypeEqual(seen, t, other)
 }
 
 func (t exactFunctionType) HashCode() int {
-	h := int(dgo.TiFunction)
-	h = h*31 + t.In().HashCode()
-	h = h*31 + t.Out().HashCode()
-	return h
+	return t.deepHashCode(nil)
+}
+
+func (t exactFunctionType) deepHashCode(seen []dgo.Value) int {
+	return functionTypeHash(seen, t)
 }
 
 func (t exactFunctionType) In() dgo.TupleType {
@@ -226,8 +228,12 @@ func (t *functionType) Equals(other interface{}) bool {
 }
 
 func (t *functionType) deepEqual(seen []dgo.Value, other deepEqual) bool {
-	if ot, ok := other.(*functionType); ok {
-		return equals(seen, t.arguments, ot.arguments) && equals(seen, t.returns, ot.returns)
+	return functionTypeEqual(seen, t, other)
+}
+
+func functionTypeEqual(seen []dgo.Value, t dgo.FunctionType, other interface{}) bool {
+	if ot, ok := other.(dgo.FunctionType); ok {
+		return equals(seen, t.In(), ot.In()) && equals(seen, t.Out(), ot.Out())
 	}
 	return false
 }
@@ -237,9 +243,13 @@ func (t *functionType) HashCode() int {
 }
 
 func (t *functionType) deepHashCode(seen []dgo.Value) int {
+	return functionTypeHash(seen, t)
+}
+
+func functionTypeHash(seen []dgo.Value, t dgo.FunctionType) int {
 	h := int(dgo.TiFunction)
-	h = h*31 + deepHashCode(seen, t.arguments)
-	h = h*31 + deepHashCode(seen, t.returns)
+	h = h*31 + deepHashCode(seen, t.In())
+	h = h*31 + deepHashCode(seen, t.Out())
 	return h
 }
 
diff --git a/internal/map.go b/internal/map.go
index 9e37a22..e89343c 100644
--- a/internal/map.go
+++ b/internal/map.go
@@ -1103,7 +1103,7 @@ func (t *sizedMapType) deepHashCode(seen []dgo.Value) int {
 		h = h*31 + deepHashCode(seen, t.keyType)
 	}
 	if DefaultAnyType != t.valueType {
-		h = h*31 + deepHashCode(seen, t.keyType)
+		h = h*31 + deepHashCode(seen, t.valueType)
 	}
 	return h
 }
diff --git a/internal/ternary.go b/internal/ternary.go
index 3324b91..431b9a4 100644
--- a/internal/ternary.go
+++ b/internal/ternary.go
@@ -99,7 +99,7 @@ func (t *allOfType) HashCode() int {
 }
 
 func (t *allOfType) deepHashCode(seen []dgo.Value) int {
-	return deepHashCode(seen, (*array)(t))*7 + int(dgo.TiAllOf)
+	return operandsHash(seen, t.slice, typeAsType)*7 + int(dgo.TiAllOf)
 }
 
 func (t *allOfType) Instance(value interface{}) bool {
@@ -203,7 +203,7 @@ func (t *allOfValueType) HashCode() int {
 }
 
 func (t *allOfValueType) deepHashCode(seen []dgo.Value) int {
-	return deepHashCode(seen, (*array)(t))*7 + int(dgo.TiAllOfValue)
+	return operandsHash(seen, t.slice, valueAsType)*7 + int(dgo.TiAllOf)
 }
 
 func (t *allOfValueType) Instance(value interface{}) bool {
@@ -311,7 +311,7 @@ func (t *anyOfType) HashCode() int {
 }
 
 func (t *anyOfType) deepHashCode(seen []dgo.Value) int {
-	return deepHashCode(seen, (*array)(t))*7 + int(dgo.TiAnyOf)
+	return operandsHash(seen, t.slice, typeAsType)*7 + int(dgo.TiAnyOf)
 }
 
 func (t *anyOfType) Instance(value interface{}) bool {
@@ -425,7 +425,7 @@ func (t *oneOfType) HashCode() int {
 }
 
 func (t *oneOfType) deepHashCode(seen []dgo.Value) int {
-	return deepHashCode(seen, (*array)(t))*7 + int(dgo.TiOneOf)
+	return operandsHash(seen, t.slice, typeAsType)*7 + int(dgo.TiOneOf)
 }
 
 func (t *oneOfType) Instance(value interface{}) bool {
@@ -536,6 +536,15 @@ func sameValues(seen []dgo.Value, a, b dgo.Array, fc func(dgo.Value) dgo.Type) b
 	return false
 }
 
+// operandsHash returns a hash code that is independent of the order of the operands
+func operandsHash(seen []dgo.Value, s []dgo.Value, fc func(dgo.Value) dgo.Type) int {
+	h := 1
+	for i := range s {
+		h += deepHashCode(seen, fc(s[i]))
+	}
+	return h
+}
+
 // lessRestrictive is true if slice 'a' is less restrictive than slice 'b'
 //
 // This is true if:
@@ -544,10 +553,24 @@ func sameValues(seen []dgo.Value, a, b dgo.Array, fc func(dgo.Value) dgo.Type) b
 func lessRestrictive(guard dgo.RecursionGuard, ats, bts []dgo.Type) bool {
 	matched := make([]bool, len(bts))
 
-	// Assume that each type in 'a' has an assignable match in 'b'
-nextA:
+	// Types that are equal match each other regardless of what other types they match
+	rest := make([]dgo.Type, 0, len(ats))
+nextEq:
 	for ia := range ats {
 		ta := ats[ia]
+		for ib := range bts {
+			if !matched[ib] && equals(nil, ta, bts[ib]) {
+				matched[ib] = true
+				continue nextEq
+			}
+		}
+		rest = append(rest, ta)
+	}
+
+	// Assume that each type in 'a' has an assignable match in 'b'
+nextA:
+	for ia := range rest {
+		ta := rest[ia]
 		for ib := range bts {
 			if !matched[ib] && Assignable(guard, ta, bts[ib]) {
 				matched[ib] = true
-- 
2.43.0


From ed22ad0fd40a6de590a434e522644b2c0985d6c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:47:48 +0000
Subject: [PATCH 033/126] fix: the generic type of a binary is the exact type

---
 internal/binary.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/internal/binary.go b/internal/binary.go
index 20c00ab..0643e36 100644
--- a/internal/binary.go
+++ b/internal/binary.go
@@ -147,6 +147,10 @@ func (t *binaryType) Unbounded() bool {
 	return t.min == 0 && t.max == math.MaxInt64
 }
 
+func (v *exactBinaryType) Generic() dgo.Type {
+	return DefaultBinaryType
+}
+
 func (v *exactBinaryType) IsInstance(b []byte) bool {
 	return bytes.Equal(v.value.bytes, b)
 }
-- 
2.43.0


From 21b8c5270210da44fad7c7aadfd196196285d949 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:47:51 +0000
Subject: [PATCH 034/126] fix: the generic type of a struct type with
 additional entries rejects those entries

---
 internal/mapstruct.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/internal/mapstruct.go b/internal/mapstruct.go
index 84879aa..b2cbfce 100644
--- a/internal/mapstruct.go
+++ b/internal/mapstruct.go
@@ -229,6 +229,9 @@ func (t *structType) deepEqual(seen []dgo.Value, other deepEqual) bool {
 }
 
 func (t *structType) Generic() dgo.Type {
+	if t.additional {
+		return DefaultMapType // the additional entries can be of any type
+	}
 	return newMapType(Generic(t.KeyType()), Generic(t.ValueType()), 0, math.MaxInt64)
 }
 
-- 
2.43.0


From bab448f5b37c5832ff8a1c1f7cbf7a0c7a87e3cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:50:08 +0000
Subject: [PATCH 035/126] fix: unsigned integers above the maximum of int64 are
 silently converted to negative integers

---
 internal/integer.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/internal/integer.go b/internal/integer.go
index c2efdd7..2821666 100644
--- a/internal/integer.go
+++ b/internal/integer.go
@@ -390,12 +390,12 @@ func ToInt(value interface{}) (int64, bool) {
 	case int8:
 		v = int64(value)
 	case uint:
-		if value == math.MaxUint64 {
+		if value > math.MaxInt64 {
 			panic(fmt.Errorf(`value %d overflows int64`, value))
 		}
 		v = int64(value)
 	case uint64:
-		if value == math.MaxUint64 {
+		if value > math.MaxInt64 {
 			panic(fmt.Errorf(`value %d overflows int64`, value))
 		}
 		v = int64(value)
-- 
2.43.0


From afc84b9f70b665656bb190b63fedb683f57827b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:50:12 +0000
Subject: [PATCH 036/126] fix: booleans and strings are not comparable to go
 booleans and nil, an array with an incomparable element is not comparable to
 one with nil

---
 internal/array.go   | 2 +-
 internal/boolean.go | 5 ++++-
 internal/string.go  | 2 +-
 3 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/internal/array.go b/internal/array.go
index b7aa017..cb8707a 100644
--- a/internal/array.go
+++ b/internal/array.go
@@ -933,7 +933,7 @@ func (v *array) deepCompare(seen []dgo.Value, other deepCompare) (int, bool) {
 	}
 
 	for i := 0; i < max; i++ {
-		if _, ok = a[i].(dgo.Comparable); !ok {
+		if _, ok = a[i].(dgo.Comparable); !ok && b[i] != Nil {
 			r = 0
 			break
 		}
diff --git a/internal/boolean.go b/internal/boolean.go
index 24c4c72..8ac7bb5 100644
--- a/internal/boolean.go
+++ b/internal/boolean.go
@@ -108,6 +108,9 @@ func (t *exactBooleanType) TypeIdentifier() dgo.TypeIdentifier {
 
 func (v boolean) CompareTo(other interface{}) (r int, ok bool) {
 	ok = true
+	if b, isBool := other.(bool); isBool {
+		other = boolean(b)
+	}
 	switch ov := other.(type) {
 	case boolean:
 		r = 0
@@ -118,7 +121,7 @@ func (v boolean) CompareTo(other interface{}) (r int, ok bool) {
 		} else if ov {
 			r = -1
 		}
-	case nilValue:
+	case nil, nilValue:
 		r = 1
 	default:
 		ok = false
diff --git a/internal/string.go b/internal/string.go
index 9b01edd..0041aed 100644
--- a/internal/string.go
+++ b/internal/string.go
@@ -613,7 +613,7 @@ func (v *hstring) CompareTo(other interface{}) (r int, ok bool) {
 		default:
 			r = 0
 		}
-	case nilValue:
+	case nil, nilValue:
 		r = 1
 	default:
 		ok = false
-- 
2.43.0


From a6fc35604011c8ed3e0086798e385649aee61e4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:00:55 +0000
Subject: [PATCH 037/126] fix: number literals that are out of range are
 silently parsed as other numbers

---
 parser/parser.go         | 13 +++++++++++--
 streamer/pcore/parser.go | 10 ++++++++--
 2 files changed, 19 insertions(+), 4 deletions(-)

diff --git a/parser/parser.go b/parser/parser.go
index caaba22..091ab8f 100644
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -789,12 +789,21 @@ func (p *parser) typeExpression(t *Token) {
 }
 
 func tokenInt(t *Token) int64 {
-	i, _ := strconv.ParseInt(t.Value, 0, 64)
+	i, err := strconv.ParseInt(t.Value, 0, 64)
+	if err != nil {
+		panic(err)
+	}
 	return i
 }
 
 func tokenFloat(t *Token) float64 {
-	f, _ := strconv.ParseFloat(t.Value, 64)
+	if t.Type == integer {
+		return float64(tokenInt(t))
+	}
+	f, err := strconv.ParseFloat(t.Value, 64)
+	if err != nil {
+		panic(err)
+	}
 	return f
 }
 
diff --git a/streamer/pcore/parser.go b/streamer/pcore/parser.go
index ec99084..920456e 100644
--- a/streamer/pcore/parser.go
+++ b/streamer/pcore/parser.go
@@ -208,10 +208,16 @@ func (p *pcoreParser) element(t *parser.Token) {
 	case '[':
 		p.array()
 	case integer:
-		i, _ := strconv.ParseInt(t.Value, 0, 64)
+		i, err := strconv.ParseInt(t.Value, 0, 64)
+		if err != nil {
+			panic(err)
+		}
 		p.Append(vf.Integer(i))
 	case float:
-		f, _ := strconv.ParseFloat(t.Value, 64)
+		f, err := strconv.ParseFloat(t.Value, 64)
+		if err != nil {
+			panic(err)
+		}
 		p.Append(vf.Float(f))
 	case identifier:
 		p.identifier(t)
-- 
2.43.0


From d9d772b305e0be4badba1d2f25f62dc4c7cd76f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:00:57 +0000
Subject: [PATCH 038/126] fix: a float range without upper bound swallows the
 token that follows it

---
 parser/parser.go | 1 -
 1 file changed, 1 deletion(-)

diff --git a/parser/parser.go b/parser/parser.go
index 091ab8f..57bcd6d 100644
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -655,7 +655,6 @@ func (p *parser) float(t *Token) dgo.Value {
 			p.NextToken()
 			tp = internal.FloatType(f, tokenFloat(n), inclusive)
 		} else {
-			p.NextToken()
 			tp = internal.FloatType(f, math.MaxFloat64, inclusive) // Unbounded at upper end
 		}
 	} else {
-- 
2.43.0


From 03fcc414d4b3c5125b00b80be6124100511a36a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:01:00 +0000
Subject: [PATCH 039/126] fix: a float with an exponent cannot be the lower
 bound of a range

---
 parser/lexer.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/parser/lexer.go b/parser/lexer.go
index cd0ffdc..986268b 100644
--- a/parser/lexer.go
+++ b/parser/lexer.go
@@ -159,6 +159,8 @@ func consumeUnsignedInteger(sr *util.StringReader, buf io.Writer) {
 	for {
 		r := sr.Peek()
 		switch {
+		case r == '.' && sr.Peek2() == '.':
+			return // start of range
 		case r == '.' || IsLetter(r):
 			panic(badToken(r))
 		case IsDigit(r):
-- 
2.43.0


From 0a1e2d823b17c852dece401261a8e4e7f0b45b15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:01:05 +0000
Subject: [PATCH 040/126] fix: the parsers reject the unicode replacement
 character

---
 util/reader.go | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/util/reader.go b/util/reader.go
index 601b305..db510a6 100644
--- a/util/reader.go
+++ b/util/reader.go
@@ -38,7 +38,7 @@ func (r *StringReader) Next() rune {
 	} else {
 		var size int
 		c, size = utf8.DecodeRuneInString(r.s[r.p:])
-		if c == utf8.RuneError {
+		if c == utf8.RuneError && size == 1 {
 			panic(errors.New("unicode error"))
 		}
 		r.p += size
@@ -54,8 +54,9 @@ func (r *StringReader) Peek() rune {
 	}
 	c := rune(r.s[r.p])
 	if c >= utf8.RuneSelf {
-		c, _ = utf8.DecodeRuneInString(r.s[r.p:])
-		if c == utf8.RuneError {
+		var size int
+		c, size = utf8.DecodeRuneInString(r.s[r.p:])
+		if c == utf8.RuneError && size == 1 {
 			panic(errors.New("unicode error"))
 		}
 	}
@@ -71,7 +72,7 @@ func (r *StringReader) Peek2() rune {
 	var sz int
 	if c >= utf8.RuneSelf {
 		c, sz = utf8.DecodeRuneInString(r.s[r.p:])
-		if c == utf8.RuneError {
+		if c == utf8.RuneError && sz == 1 {
 			panic(errors.New("unicode error"))
 		}
 	} else {
@@ -85,8 +86,8 @@ func (r *StringReader) Peek2() rune {
 
 	c = rune(r.s[np])
 	if c >= utf8.RuneSelf {
-		c, _ = utf8.DecodeRuneInString(r.s[np:])
-		if c == utf8.RuneError {
+		c, sz = utf8.DecodeRuneInString(r.s[np:])
+		if c == utf8.RuneError && sz == 1 {
 			panic(errors.New("unicode error"))
 		}
 	}
-- 
2.43.0


From 57d965ac355af2934de16aa1df0aec06824ad3ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:02:46 +0000
Subject: [PATCH 041/126] fix: arrays and maps of negated or case insensitive
 elements, and double negations, are not accepted by the parser

---
 parser/parser.go | 36 ++++++++++++++----------------------
 1 file changed, 14 insertions(+), 22 deletions(-)

diff --git a/parser/parser.go b/parser/parser.go
index 57bcd6d..9987ad7 100644
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -474,29 +474,21 @@ func (p *parser) allOf(t *Token) {
 }
 
 func (p *parser) unary(t *Token) {
-	negate := false
-	ciString := false
-	if t.Type == '!' {
-		negate = true
-		t = p.NextToken()
-	}
-	if t.Type == '~' {
-		ciString = true
+	switch t.Type {
+	case '!':
+		p.unary(p.NextToken())
+		nt := internal.NotType(p.PopLastType())
+		p.Append(nt)
+	case '~':
 		t = p.NextToken()
-	}
-
-	p.typeExpression(t)
-
-	if ciString {
-		if s, ok := p.PopLast().(dgo.String); ok {
-			p.Append(internal.CiStringType(s))
-		} else {
+		p.typeExpression(t)
+		s, ok := p.PopLast().(dgo.String)
+		if !ok {
 			panic(badSyntax(t, exStringLiteral))
 		}
-	}
-	if negate {
-		nt := internal.NotType(p.PopLastType())
-		p.Append(nt)
+		p.Append(internal.CiStringType(s))
+	default:
+		p.typeExpression(t)
 	}
 }
 
@@ -520,7 +512,7 @@ func (p *parser) mapExpression() dgo.Value {
 		panic(badSyntax(n, exRightBracket))
 	}
 
-	p.typeExpression(p.NextToken())
+	p.unary(p.NextToken())
 	params := internal.WrapSlice([]dgo.Value{keyType, p.PopLastType()})
 	if szc != nil {
 		params.AddAll(szc)
@@ -707,7 +699,7 @@ func (p *parser) dotRange(t *Token) dgo.Value {
 func (p *parser) array() dgo.Value {
 	p.params()
 	params := p.PopLast().(dgo.Array)
-	p.typeExpression(p.NextToken())
+	p.unary(p.NextToken())
 	params.Insert(0, p.PopLastType())
 	return internal.ArrayType(params.InterfaceSlice())
 }
-- 
2.43.0


From 6f7a27002db0d38ca0593aff638a9465f6331dd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:03:22 +0000
Subject: [PATCH 042/126] fix: the parser treats all optional keys in a struct
 type as strings

---
 parser/parser.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parser/parser.go b/parser/parser.go
index 9987ad7..211e465 100644
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -388,7 +388,7 @@ func (p *parser) params() {
 func (p *parser) arrayElement(t *Token, expectEntry int) int {
 	var key dgo.Value
 	nt := p.PeekToken()
-	if t.Type == identifier && nt.Type == ':' || nt.Type == '?' {
+	if t.Type == identifier && (nt.Type == ':' || nt.Type == '?') {
 		if expectEntry == 0 {
 			panic(errors.New(`mix of elements and map entries`))
 		}
-- 
2.43.0


From 62424bb961f4c336cda047431523b07815a0262d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:04:00 +0000
Subject: [PATCH 043/126] fix: the parsers do not accept all escapes that are
 used when strings are printed

---
 parser/lexer.go | 41 ++++++++++++++++++++++++++++++++++++++---
 1 file changed, 38 insertions(+), 3 deletions(-)

diff --git a/parser/lexer.go b/parser/lexer.go
index 986268b..535400d 100644
--- a/parser/lexer.go
+++ b/parser/lexer.go
@@ -7,6 +7,7 @@ import (
 	"io"
 	"strconv"
 	"strings"
+	"unicode/utf8"
 
 	"github.com/lyraproj/dgo/internal"
 
@@ -322,7 +323,7 @@ func ConsumeRegexp(sr *util.StringReader) string {
 }
 
 // ConsumeString consumes the current string up to the given end character while taking
-// escaped nl, cr, tab, escape, and end character into account.
+// escaped end character and the escapes used by strconv.Quote into account.
 func ConsumeString(sr *util.StringReader, end rune) string {
 	buf := bytes.NewBufferString(``)
 	for {
@@ -334,7 +335,7 @@ func ConsumeString(sr *util.StringReader, end rune) string {
 		case 0:
 			panic(errors.New("unterminated string"))
 		case '\\':
-			consumeEscape(sr.Next(), buf, end)
+			consumeEscape(sr, buf, end)
 		case '\n':
 			panic(errors.New("unterminated string"))
 		default:
@@ -343,16 +344,32 @@ func ConsumeString(sr *util.StringReader, end rune) string {
 	}
 }
 
-func consumeEscape(r rune, buf io.Writer, end rune) {
+func consumeEscape(sr *util.StringReader, buf io.Writer, end rune) {
+	r := sr.Next()
 	switch r {
 	case 0:
 		panic(errors.New("unterminated string"))
+	case 'a':
+		r = '\a'
+	case 'b':
+		r = '\b'
+	case 'f':
+		r = '\f'
 	case 'n':
 		r = '\n'
 	case 'r':
 		r = '\r'
 	case 't':
 		r = '\t'
+	case 'v':
+		r = '\v'
+	case 'x':
+		util.WriteByte(buf, byte(consumeHexEscape(sr, r, 2)))
+		return
+	case 'u':
+		r = consumeHexEscape(sr, r, 4)
+	case 'U':
+		r = consumeHexEscape(sr, r, 8)
 	case '\\':
 	default:
 		if r != end {
@@ -362,6 +379,24 @@ func consumeEscape(r rune, buf io.Writer, end rune) {
 	util.WriteRune(buf, r)
 }
 
+// consumeHexEscape consumes the given number of hexadecimal digits that follows the escape character e. The
+// digits must denote a byte or a valid rune.
+func consumeHexEscape(sr *util.StringReader, e rune, count int) rune {
+	bs := make([]byte, count)
+	for i := range bs {
+		r := sr.Next()
+		if !IsHex(r) {
+			panic(fmt.Errorf("illegal escape '\\%c'", e))
+		}
+		bs[i] = byte(r)
+	}
+	v, err := strconv.ParseUint(string(bs), 16, 32)
+	if err != nil || v > utf8.MaxRune || count > 2 && !utf8.ValidRune(rune(v)) {
+		panic(fmt.Errorf("illegal escape '\\%c'", e))
+	}
+	return rune(v)
+}
+
 func consumeRawString(sr *util.StringReader) string {
 	buf := bytes.NewBufferString(``)
 	for {
-- 
2.43.0


From 26e85469fba6d76699e57d00c56cde9a7a08afb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:04:54 +0000
Subject: [PATCH 044/126] fix: strings of function types in operators and of
 tuples with ranges without lower bound denote other types

---
 stringer/typestring.go | 43 ++++++++++++++++++++++++++++++++----------
 1 file changed, 33 insertions(+), 10 deletions(-)

diff --git a/stringer/typestring.go b/stringer/typestring.go
index 7a87702..905965e 100644
--- a/stringer/typestring.go
+++ b/stringer/typestring.go
@@ -230,11 +230,13 @@ func (sb *typeBuilder) function(typ dgo.Type, prio int) {
 	out := ft.Out()
 	if out.Len() > 0 {
 		util.WriteByte(sb, ' ')
-		if out.Len() == 1 && !out.Variadic() {
-			sb.buildTypeString(out.Element(0), prio)
-		} else {
-			sb.writeTupleArgs(ft.Out(), '(', ')')
+		if prio < orPrio && out.Len() == 1 && !out.Variadic() {
+			if rt := sb.subString(out.Element(0)); rt[0] != '(' {
+				util.WriteString(sb, rt)
+				return
+			}
 		}
+		sb.writeTupleArgs(out, '(', ')')
 	}
 }
 
@@ -254,6 +256,26 @@ func (sb *typeBuilder) named(typ dgo.Type, _ int) {
 	}
 }
 
+// subString returns the string that buildTypeString produces for the given type.
+func (sb *typeBuilder) subString(typ dgo.Type) string {
+	w := sb.Writer
+	s := strings.Builder{}
+	sb.Writer = &s
+	sb.buildTypeString(typ, commaPrio)
+	sb.Writer = w
+	return s.String()
+}
+
+// writeElement writes the type of a tuple element. The string is parenthesized when it starts with an ellipsis
+// since that would denote a variadic element.
+func (sb *typeBuilder) writeElement(typ dgo.Type) {
+	s := sb.subString(typ)
+	if strings.HasPrefix(s, `...`) {
+		s = `(` + s + `)`
+	}
+	util.WriteString(sb, s)
+}
+
 func newTypeBuilder(w io.Writer, am dgo.AliasMap) *typeBuilder {
 	sb := &typeBuilder{Writer: w, aliasMap: am}
 	sb.complexTypes = map[dgo.TypeIdentifier]typeToString{
@@ -293,10 +315,6 @@ func newTypeBuilder(w io.Writer, am dgo.AliasMap) *typeBuilder {
 	return sb
 }
 
-func (sb *typeBuilder) joinTypes(v dgo.Iterable, s string, prio int) {
-	sb.joinX(v, typeAsType, s, prio)
-}
-
 func (sb *typeBuilder) joinValueTypes(v dgo.Iterable, s string, prio int) {
 	sb.joinX(v, valueAsType, s, prio)
 }
@@ -374,7 +392,7 @@ func (sb *typeBuilder) writeTupleArgs(tt dgo.TupleType, leftSep, rightSep byte)
 		for i := 0; i < n; i++ {
 			util.WriteByte(sb, sep)
 			sep = ','
-			sb.buildTypeString(es.Get(i).(dgo.Type), commaPrio)
+			sb.writeElement(es.Get(i).(dgo.Type))
 		}
 		util.WriteByte(sb, sep)
 		util.WriteString(sb, `...`)
@@ -382,7 +400,12 @@ func (sb *typeBuilder) writeTupleArgs(tt dgo.TupleType, leftSep, rightSep byte)
 		util.WriteByte(sb, rightSep)
 	} else {
 		util.WriteByte(sb, leftSep)
-		sb.joinTypes(es, `,`, commaPrio)
+		for i, n := 0, es.Len(); i < n; i++ {
+			if i > 0 {
+				util.WriteByte(sb, ',')
+			}
+			sb.writeElement(es.Get(i).(dgo.Type))
+		}
 		util.WriteByte(sb, rightSep)
 	}
 }
-- 
2.43.0


From da89b846418b4c13cda357704dfdd7d6e454da82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:04:56 +0000
Subject: [PATCH 045/126] fix: strings of map and struct types denote string
 keys instead of keys that are keywords

---
 stringer/typestring.go | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/stringer/typestring.go b/stringer/typestring.go
index 905965e..44121b6 100644
--- a/stringer/typestring.go
+++ b/stringer/typestring.go
@@ -3,6 +3,7 @@ package stringer
 import (
 	"io"
 	"math"
+	"regexp"
 	"strconv"
 	"strings"
 
@@ -20,6 +21,8 @@ const (
 	typePrio
 )
 
+var keyword = regexp.MustCompile(`\A[A-Za-z_$][A-Za-z0-9_$]*\z`)
+
 type typeToString func(typ dgo.Type, prio int)
 
 type typeBuilder struct {
@@ -132,7 +135,7 @@ func (sb *typeBuilder) _struct(typ dgo.Type, _ int) {
 
 func (sb *typeBuilder) mapEntryExact(typ dgo.Type, _ int) {
 	me := typ.(dgo.ExactType).ExactValue().(dgo.MapEntry)
-	sb.buildTypeString(me.Key().Type(), commaPrio)
+	sb.writeKey(me.Key().Type())
 	util.WriteByte(sb, ':')
 	sb.buildTypeString(me.Value().Type(), commaPrio)
 }
@@ -276,6 +279,16 @@ func (sb *typeBuilder) writeElement(typ dgo.Type) {
 	util.WriteString(sb, s)
 }
 
+// writeKey writes the type of a key. The string is parenthesized when it is a keyword, since an identifier
+// followed by a colon denotes a string, or when it starts with an ellipsis.
+func (sb *typeBuilder) writeKey(typ dgo.Type) {
+	s := sb.subString(typ)
+	if keyword.MatchString(s) && sb.aliasMap.GetName(typ) == nil || strings.HasPrefix(s, `...`) {
+		s = `(` + s + `)`
+	}
+	util.WriteString(sb, s)
+}
+
 func newTypeBuilder(w io.Writer, am dgo.AliasMap) *typeBuilder {
 	sb := &typeBuilder{Writer: w, aliasMap: am}
 	sb.complexTypes = map[dgo.TypeIdentifier]typeToString{
@@ -339,7 +352,7 @@ func (sb *typeBuilder) joinStructMapEntries(v dgo.StructMapType) {
 		} else {
 			util.WriteByte(sb, ',')
 		}
-		sb.buildTypeString(e.Key().(dgo.Type), commaPrio)
+		sb.writeKey(e.Key().(dgo.Type))
 		if !e.Required() {
 			util.WriteByte(sb, '?')
 		}
-- 
2.43.0


From a9e50f109fc035b9eb7e526c1bdf1389522c8aeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:04:57 +0000
Subject: [PATCH 046/126] fix: the string of a range that only excludes the
 greatest number is not accepted by the parser

---
 stringer/typestring.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/stringer/typestring.go b/stringer/typestring.go
index 44121b6..12f0128 100644
--- a/stringer/typestring.go
+++ b/stringer/typestring.go
@@ -378,7 +378,7 @@ func (sb *typeBuilder) writeIntRange(min, max int64, inclusive bool) {
 		op = `..`
 	}
 	util.WriteString(sb, op)
-	if max != math.MaxInt64 {
+	if max != math.MaxInt64 || min == math.MinInt64 {
 		util.WriteString(sb, strconv.FormatInt(max, 10))
 	}
 }
@@ -392,7 +392,7 @@ func (sb *typeBuilder) writeFloatRange(min, max float64, inclusive bool) {
 		op = `..`
 	}
 	util.WriteString(sb, op)
-	if max != math.MaxFloat64 {
+	if max != math.MaxFloat64 || min == -math.MaxFloat64 {
 		util.WriteString(sb, util.Ftoa(max))
 	}
 }
-- 
2.43.0


From 332578fdffe40cfc5880aa52eb7ad8235a6514ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:08:57 +0000
Subject: [PATCH 047/126] fix: parsing without alias map fails with a nil
 dereference when a name is referenced or declared

---
 internal/alias.go | 5 +++++
 parser/parser.go  | 6 +++++-
 2 files changed, 10 insertions(+), 1 deletion(-)

diff --git a/internal/alias.go b/internal/alias.go
index 8d21fd4..238d807 100644
--- a/internal/alias.go
+++ b/internal/alias.go
@@ -195,6 +195,11 @@ func (a *aliasMap) GetType(n dgo.String) dgo.Type {
 	return nil
 }
 
+// NewAliasAdder returns an AliasAdder that resolves names that haven't been added to it using the given AliasMap.
+func NewAliasAdder(backingMap dgo.AliasMap) dgo.AliasAdder {
+	return &aliasAdder{backingMap: backingMap}
+}
+
 func (a *aliasAdder) Add(t dgo.Type, name dgo.String) {
 	a.namedTypes.Put(name, t)
 }
diff --git a/parser/parser.go b/parser/parser.go
index 211e465..8e4a1f1 100644
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -123,8 +123,12 @@ type (
 	}
 )
 
-// NewParserBase creates the extendable parser base.
+// NewParserBase creates the extendable parser base. If the given AliasAdder is nil, then the default aliases can be
+// referenced and aliases that are declared in the content are only known to the parser.
 func NewParserBase(am dgo.AliasAdder, lf LexFunction, content string) Base {
+	if am == nil {
+		am = internal.NewAliasAdder(internal.DefaultAliases())
+	}
 	return Base{lf: lf, sc: am, sr: util.NewStringReader(content)}
 }
 
-- 
2.43.0


From 9106768ee6230249706f644e10e696dbb5d0718a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:09:13 +0000
Subject: [PATCH 048/126] fix: floats without fraction are decoded from JSON as
 integers

---
 streamer/json.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/streamer/json.go b/streamer/json.go
index 3b362c8..1271ce8 100644
--- a/streamer/json.go
+++ b/streamer/json.go
@@ -226,7 +226,9 @@ func (j *jsonEncoder) write(e dgo.Value) {
 	case dgo.String:
 		v, err = json.Marshal(e.GoString())
 	case dgo.Float:
-		v, err = json.Marshal(e.GoFloat())
+		if v, err = json.Marshal(e.GoFloat()); err == nil && !bytes.ContainsAny(v, `.e`) {
+			v = append(v, `.0`...) // retain the type
+		}
 	case dgo.Integer:
 		v, err = json.Marshal(e.GoInt())
 	case dgo.Boolean:
-- 
2.43.0


From d83de8d6522eac8068b208d4d9137e662749361d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:09:15 +0000
Subject: [PATCH 049/126] fix: MarshalJSON ignores the reference key of the
 dialect

---
 streamer/json.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/streamer/json.go b/streamer/json.go
index 1271ce8..7058cf8 100644
--- a/streamer/json.go
+++ b/streamer/json.go
@@ -25,7 +25,7 @@ func MarshalJSON(v interface{}, dialect Dialect) []byte {
 	if dialect != nil {
 		opts.Dialect = dialect
 	}
-	New(nil, opts).Stream(vf.Value(v), JSON(&b))
+	New(nil, opts).Stream(vf.Value(v), &jsonEncoder{out: &b, state: firstInArray, dialect: opts.Dialect})
 	return b.Bytes()
 }
 
-- 
2.43.0


From 29621c4b2649c593a7c44d269c8486f341061e5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:09:16 +0000
Subject: [PATCH 050/126] fix: UnmarshalJSON ignores data after the value and
 silently decodes out of range numbers as infinity

---
 streamer/json.go | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/streamer/json.go b/streamer/json.go
index 7058cf8..bb610a2 100644
--- a/streamer/json.go
+++ b/streamer/json.go
@@ -3,6 +3,7 @@ package streamer
 import (
 	"bytes"
 	"encoding/json"
+	"errors"
 	"fmt"
 	"io"
 
@@ -48,6 +49,12 @@ func UnmarshalJSON(b []byte, dialect Dialect) dgo.Value {
 
 	j := &jsonDecoder{consumer: vc, refKey: opts.Dialect.RefKey().GoString(), decoder: je}
 	j.decode()
+	if _, err := je.Token(); err != io.EOF {
+		if err == nil {
+			err = errors.New(`unexpected data after top-level value`)
+		}
+		panic(err)
+	}
 	return vc.Value()
 }
 
@@ -77,7 +84,10 @@ func (j *jsonDecoder) decodeElem(end json.Delim) bool {
 		if i, err := t.Int64(); err == nil {
 			j.consumer.Add(vf.Integer(i))
 		} else {
-			f, _ := t.Float64()
+			f, err := t.Float64()
+			if err != nil {
+				panic(err)
+			}
 			j.consumer.Add(vf.Float(f))
 		}
 	case bool:
-- 
2.43.0


From 41b05096f48f3fca9b6590736f54d0c881152095 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:09:18 +0000
Subject: [PATCH 051/126] fix: types without alias are streamed without type
 string when an alias map is used, types are streamed although rich data is
 disabled

---
 streamer/streamer.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/streamer/streamer.go b/streamer/streamer.go
index b78b8db..dc1e224 100644
--- a/streamer/streamer.go
+++ b/streamer/streamer.go
@@ -177,6 +177,9 @@ func (sc *context) emitString(value dgo.String) {
 
 func (sc *context) emitType(typ dgo.Type) {
 	sc.process(typ, func() {
+		if !sc.config.RichData {
+			panic(sc.unknownSerialization(typ))
+		}
 		sc.addMap(2, func() {
 			d := sc.config.Dialect
 			sc.addData(d.TypeKey())
@@ -185,10 +188,10 @@ func (sc *context) emitType(typ dgo.Type) {
 					sc.addData(d.AliasTypeName())
 					sc.addData(d.ValueKey())
 					sc.emitData(vf.Values(tn, typ.String()))
+					return
 				}
-			} else {
-				sc.addData(vf.String(typ.String()))
 			}
+			sc.addData(vf.String(typ.String()))
 		})
 	})
 }
-- 
2.43.0


From 9aa72583ff159edda70ffff4c11c2964cd3a9d64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:09:44 +0000
Subject: [PATCH 052/126] fix: a named value that is created from a map that is
 empty, or that has reserved or non string keys, is not decoded

---
 streamer/streamer.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/streamer/streamer.go b/streamer/streamer.go
index dc1e224..05ac495 100644
--- a/streamer/streamer.go
+++ b/streamer/streamer.go
@@ -127,7 +127,7 @@ func (sc *context) emitNamed(t dgo.NamedType, value dgo.Value) {
 		sc.addMap(2, func() {
 			sc.addData(d.TypeKey())
 			sc.addData(vf.String(t.Name()))
-			if vm, ok := v.(dgo.Map); ok {
+			if vm, ok := v.(dgo.Map); ok && isInitMap(vm, d) {
 				vm.EachEntry(func(e dgo.MapEntry) {
 					sc.addData(e.Key())
 					sc.emitData(e.Value())
@@ -140,6 +140,11 @@ func (sc *context) emitNamed(t dgo.NamedType, value dgo.Value) {
 	})
 }
 
+// isInitMap returns true if the entries of the given map can be added to the map that represents the named value
+func isInitMap(m dgo.Map, d Dialect) bool {
+	return m.Len() > 0 && m.StringKeys() && !m.ContainsKey(d.TypeKey()) && !m.ContainsKey(d.ValueKey())
+}
+
 func (sc *context) unknownSerialization(value dgo.Value) error {
 	return fmt.Errorf(`unable to serialize value of type %s`, value.Type())
 }
-- 
2.43.0


From c66a57c9ed7c63cc8ec9f58917b5e3b81c68a16f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:09:46 +0000
Subject: [PATCH 053/126] fix: named values that cannot be go map keys cannot
 be streamed

---
 streamer/streamer.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/streamer/streamer.go b/streamer/streamer.go
index 05ac495..92cb598 100644
--- a/streamer/streamer.go
+++ b/streamer/streamer.go
@@ -3,6 +3,7 @@ package streamer
 
 import (
 	"fmt"
+	"reflect"
 
 	"github.com/lyraproj/dgo/dgo"
 	"github.com/lyraproj/dgo/vf"
@@ -150,7 +151,7 @@ func (sc *context) unknownSerialization(value dgo.Value) error {
 }
 
 func (sc *context) process(value interface{}, doer dgo.Doer) {
-	if sc.dedupLevel == NoDedup {
+	if sc.dedupLevel == NoDedup || !reflect.TypeOf(value).Comparable() {
 		doer()
 		return
 	}
-- 
2.43.0


From 1f8a187b83318aacc45542e4a50421b024c98200 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:10:21 +0000
Subject: [PATCH 054/126] fix: the data decoder resolves references to rich
 values to the maps that represent them

---
 streamer/decoder.go | 77 ++++++++++++++++++++++++++++++---------------
 1 file changed, 52 insertions(+), 25 deletions(-)

diff --git a/streamer/decoder.go b/streamer/decoder.go
index 9cd2b36..c0a381a 100644
--- a/streamer/decoder.go
+++ b/streamer/decoder.go
@@ -13,6 +13,7 @@ type dataDecoder struct {
 	BasicCollector
 	dialect  Dialect
 	aliasMap dgo.AliasAdder
+	refs     map[int]bool // indexes of the values that have been referenced
 }
 
 // DataDecoder returns a decoder capable of decoding a stream of rich data representations into the corresponding values.
@@ -24,6 +25,7 @@ func DataDecoder(aliasMap dgo.AliasAdder, d Dialect) Collector {
 
 func (d *dataDecoder) Init() {
 	d.BasicCollector.Init()
+	d.refs = make(map[int]bool)
 	if d.dialect == nil {
 		d.dialect = DgoDialect()
 	}
@@ -32,14 +34,34 @@ func (d *dataDecoder) Init() {
 // AddMap initializes and adds a new map and then calls the function with is supposed to
 // add an even number of elements as a sequence of key, value, [key, value, ...]
 func (d *dataDecoder) AddMap(cap int, doer dgo.Doer) {
+	idx := d.Values.Len()
 	d.BasicCollector.AddMap(cap, doer)
 	m := d.PeekLast().(dgo.Map)
 	dl := d.dialect
 	if ts, ok := m.Get(dl.TypeKey()).(dgo.String); ok {
-		d.ReplaceLast(d.decode(ts, m))
+		v := d.decode(ts, m)
+		if d.refs[idx] {
+			// Replace all references to m in what has been added since m was added, and in the new value, with
+			// the new value.
+			seen := make(map[dgo.Value]dgo.Value)
+			for i := idx + 1; i < d.Values.Len(); i++ {
+				if re, rh := replaceInstance(m, v, d.Values.Get(i), seen); rh {
+					d.Values.Set(i, re)
+				}
+			}
+			replaceInstance(m, v, v, seen)
+		}
+		d.Values.Set(idx, v)
+		d.ReplaceLast(v)
 	}
 }
 
+// AddRef adds the nth value of the values that has been added once again.
+func (d *dataDecoder) AddRef(ref int) {
+	d.refs[ref] = true
+	d.BasicCollector.AddRef(ref)
+}
+
 func (d *dataDecoder) decode(ts dgo.String, m dgo.Map) dgo.Value {
 	dl := d.dialect
 	if m.Len() == 1 {
@@ -54,11 +76,7 @@ func (d *dataDecoder) decode(ts dgo.String, m dgo.Map) dgo.Value {
 
 	switch {
 	case ts.Equals(dl.MapTypeName()):
-		nm := mv.(dgo.Array).ToMap()
-		// Replace all occurrences of m in the new map recursively with the new map as it
-		// might contain references to itself
-		replaceInstance(m, nm, nm)
-		v = nm
+		v = mv.(dgo.Array).ToMap()
 	case ts.Equals(dl.SensitiveTypeName()):
 		v = vf.Sensitive(mv)
 	case ts.Equals(dl.BinaryTypeName()):
@@ -85,33 +103,42 @@ func (d *dataDecoder) decode(ts dgo.String, m dgo.Map) dgo.Value {
 	return v
 }
 
-func replaceInstance(orig, repl, in dgo.Value) (dgo.Value, bool) {
+// replaceInstance replaces all occurrences of orig with repl in the given value recursively. The seen map holds the
+// collections and sensitives that have been visited and what they were replaced with.
+func replaceInstance(orig, repl, in dgo.Value, seen map[dgo.Value]dgo.Value) (dgo.Value, bool) {
 	if in == orig {
 		return repl, true
 	}
 
-	replaceHappened := false
-
 	switch iv := in.(type) {
 	case dgo.Map:
-		iv.EachEntry(func(v dgo.MapEntry) {
-			if re, rh := replaceInstance(orig, repl, v.Value()); rh {
-				replaceHappened = true
-				iv.Put(v.Key(), re)
-			}
-		})
+		if _, ok := seen[in]; !ok {
+			seen[in] = in
+			iv.EachEntry(func(v dgo.MapEntry) {
+				if re, rh := replaceInstance(orig, repl, v.Value(), seen); rh {
+					iv.Put(v.Key(), re)
+				}
+			})
+		}
 	case dgo.Array:
-		iv.EachWithIndex(func(v dgo.Value, i int) {
-			if re, rh := replaceInstance(orig, repl, v); rh {
-				replaceHappened = true
-				iv.Set(i, re)
-			}
-		})
+		if _, ok := seen[in]; !ok {
+			seen[in] = in
+			iv.EachWithIndex(func(v dgo.Value, i int) {
+				if re, rh := replaceInstance(orig, repl, v, seen); rh {
+					iv.Set(i, re)
+				}
+			})
+		}
 	case dgo.Sensitive:
-		if rw, rh := replaceInstance(orig, repl, iv.Unwrap()); rh {
-			replaceHappened = true
-			in = vf.Sensitive(rw)
+		if re, ok := seen[in]; ok {
+			return re, re != in
+		}
+		seen[in] = in
+		if rw, rh := replaceInstance(orig, repl, iv.Unwrap(), seen); rh {
+			s := vf.Sensitive(rw)
+			seen[in] = s
+			return s, true
 		}
 	}
-	return in, replaceHappened
+	return in, false
 }
-- 
2.43.0


From 977738b9d421527f2b7c9f9a0a933af632d8ac27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:10:51 +0000
Subject: [PATCH 055/126] fix: decoding malformed rich data and references
 fails with internal runtime errors

---
 streamer/basiccollector.go |  5 +++++
 streamer/decoder.go        | 36 ++++++++++++++++++++++++++++++------
 2 files changed, 35 insertions(+), 6 deletions(-)

diff --git a/streamer/basiccollector.go b/streamer/basiccollector.go
index 1b89ba1..ae5a1c5 100644
--- a/streamer/basiccollector.go
+++ b/streamer/basiccollector.go
@@ -1,6 +1,8 @@
 package streamer
 
 import (
+	"fmt"
+
 	"github.com/lyraproj/dgo/dgo"
 	"github.com/lyraproj/dgo/vf"
 )
@@ -61,6 +63,9 @@ func (c *BasicCollector) Add(element dgo.Value) {
 
 // AddRef adds the nth value of the values that has been added once again.
 func (c *BasicCollector) AddRef(ref int) {
+	if ref < 0 || ref >= c.Values.Len() {
+		panic(fmt.Errorf(`reference %d is out of range`, ref))
+	}
 	c.StackTop().Add(c.Values.Get(ref))
 }
 
diff --git a/streamer/decoder.go b/streamer/decoder.go
index c0a381a..a431690 100644
--- a/streamer/decoder.go
+++ b/streamer/decoder.go
@@ -76,22 +76,26 @@ func (d *dataDecoder) decode(ts dgo.String, m dgo.Map) dgo.Value {
 
 	switch {
 	case ts.Equals(dl.MapTypeName()):
-		v = mv.(dgo.Array).ToMap()
+		v = arrayArg(ts, mv).ToMap()
 	case ts.Equals(dl.SensitiveTypeName()):
 		v = vf.Sensitive(mv)
 	case ts.Equals(dl.BinaryTypeName()):
-		v = vf.BinaryFromString(mv.(dgo.String).GoString())
+		v = vf.BinaryFromString(stringArg(ts, mv).GoString())
 	case ts.Equals(dl.TimeTypeName()):
-		t, err := time.Parse(time.RFC3339Nano, mv.(dgo.String).GoString())
+		t, err := time.Parse(time.RFC3339Nano, stringArg(ts, mv).GoString())
 		if err != nil {
 			panic(err)
 		}
 		v = vf.Time(t)
 	case ts.Equals(dl.AliasTypeName()):
-		ad := mv.(dgo.Array)
-		v = dl.ParseType(nil, ad.Get(1).(dgo.String))
+		ad := arrayArg(ts, mv)
+		if ad.Len() != 2 {
+			panic(badArg(ts, mv))
+		}
+		name := stringArg(ts, ad.Get(0))
+		v = dl.ParseType(nil, stringArg(ts, ad.Get(1)))
 		if d.aliasMap != nil {
-			d.aliasMap.Add(v.(dgo.Type), ad.Get(0).(dgo.String))
+			d.aliasMap.Add(v.(dgo.Type), name)
 		}
 	default:
 		tp := tf.Named(ts.GoString())
@@ -103,6 +107,26 @@ func (d *dataDecoder) decode(ts dgo.String, m dgo.Map) dgo.Value {
 	return v
 }
 
+func arrayArg(ts dgo.String, arg dgo.Value) dgo.Array {
+	a, ok := arg.(dgo.Array)
+	if !ok {
+		panic(badArg(ts, arg))
+	}
+	return a
+}
+
+func stringArg(ts dgo.String, arg dgo.Value) dgo.String {
+	s, ok := arg.(dgo.String)
+	if !ok {
+		panic(badArg(ts, arg))
+	}
+	return s
+}
+
+func badArg(ts dgo.String, arg dgo.Value) error {
+	return fmt.Errorf(`unable to decode a value of type %s from a value of type %s`, ts, arg.Type().TypeIdentifier())
+}
+
 // replaceInstance replaces all occurrences of orig with repl in the given value recursively. The seen map holds the
 // collections and sensitives that have been visited and what they were replaced with.
 func replaceInstance(orig, repl, in dgo.Value, seen map[dgo.Value]dgo.Value) (dgo.Value, bool) {
-- 
2.43.0


From 5207977d1e5383394828ed0dbb8d2d23df249a31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:11:20 +0000
Subject: [PATCH 056/126] fix: the string of a time in a zone with an offset
 that includes seconds denotes another time

---
 internal/time.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/internal/time.go b/internal/time.go
index 6176d89..9dabb2d 100644
--- a/internal/time.go
+++ b/internal/time.go
@@ -176,7 +176,12 @@ func (v *timeVal) ReflectTo(value reflect.Value) {
 }
 
 func (v *timeVal) String() string {
-	return (*time.Time)(v).Format(time.RFC3339Nano)
+	t := (*time.Time)(v)
+	if _, offset := t.Zone(); offset%60 != 0 {
+		// RFC3339 cannot express the seconds of an offset
+		return t.UTC().Format(time.RFC3339Nano)
+	}
+	return t.Format(time.RFC3339Nano)
 }
 
 func (v *timeVal) Type() dgo.Type {
-- 
2.43.0


From ac12c22f383f033980ad9672f8118c633624968e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:34:05 +0000
Subject: [PATCH 057/126] fix: aliases in function, sensitive and parameterized
 types are not resolved

---
 internal/alias.go     |  2 +-
 internal/function.go  | 10 ++++++++++
 internal/named.go     |  4 ++++
 internal/sensitive.go |  6 ++++++
 4 files changed, 21 insertions(+), 1 deletion(-)

diff --git a/internal/alias.go b/internal/alias.go
index 238d807..9091b15 100644
--- a/internal/alias.go
+++ b/internal/alias.go
@@ -214,7 +214,7 @@ func (a *aliasAdder) GetType(n dgo.String) dgo.Type {
 func (a *aliasAdder) Replace(t dgo.Value) dgo.Value {
 	switch t := t.(type) {
 	case *deferredCall:
-		return New(t.dType, t.args)
+		return New(a.Replace(t.dType).(dgo.Type), a.Replace(t.args).(dgo.Arguments))
 	case dgo.Alias:
 		if ra := a.GetType(t.Reference()); ra != nil {
 			return ra
diff --git a/internal/function.go b/internal/function.go
index 1359df1..6c18f39 100644
--- a/internal/function.go
+++ b/internal/function.go
@@ -269,6 +269,16 @@ func (t *functionType) Out() dgo.TupleType {
 	return t.returns
 }
 
+func (t *functionType) Resolve(ap dgo.AliasAdder) {
+	ta, tr := t.arguments, t.returns
+	t.arguments = EmptyTupleType
+	t.returns = EmptyTupleType
+	ta = ap.Replace(ta).(dgo.TupleType)
+	tr = ap.Replace(tr).(dgo.TupleType)
+	t.arguments = ta
+	t.returns = tr
+}
+
 func (t *functionType) ReflectType() reflect.Type {
 	// There is currently no way to build a goFunc type dynamically
 	panic(errors.New(`unable to build reflect.Type of go func dynamically`))
diff --git a/internal/named.go b/internal/named.go
index 3d4e84d..f7d8da2 100644
--- a/internal/named.go
+++ b/internal/named.go
@@ -225,6 +225,10 @@ func (t *parameterized) Parameters() dgo.Array {
 	return t.params
 }
 
+func (t *parameterized) Resolve(ap dgo.AliasAdder) {
+	ap.Replace(t.params)
+}
+
 func (t *parameterized) String() string {
 	return TypeString(t)
 }
diff --git a/internal/sensitive.go b/internal/sensitive.go
index b0966d7..19a7c61 100644
--- a/internal/sensitive.go
+++ b/internal/sensitive.go
@@ -76,6 +76,12 @@ func (t *sensitiveType) ReflectType() reflect.Type {
 	return reflectSensitiveType
 }
 
+func (t *sensitiveType) Resolve(ap dgo.AliasAdder) {
+	tw := t.wrapped
+	t.wrapped = DefaultAnyType
+	t.wrapped = ap.Replace(tw).(dgo.Type)
+}
+
 func (t *sensitiveType) Operand() dgo.Type {
 	return t.wrapped
 }
-- 
2.43.0


From 12146396aa7339500ef041184bfab29fd1379bec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:34:47 +0000
Subject: [PATCH 058/126] fix: resolved types are modified when a type that
 refers to them is parsed

---
 internal/alias.go     | 19 ++++++++++++++++++-
 internal/array.go     | 22 ++++++++++------------
 internal/function.go  |  9 ++-------
 internal/map.go       | 18 +++++++++---------
 internal/mapstruct.go | 12 ++----------
 internal/meta.go      |  8 +++++---
 internal/not.go       |  6 +++---
 internal/sensitive.go |  6 +++---
 internal/ternary.go   | 15 +++------------
 9 files changed, 55 insertions(+), 60 deletions(-)

diff --git a/internal/alias.go b/internal/alias.go
index 9091b15..2edf591 100644
--- a/internal/alias.go
+++ b/internal/alias.go
@@ -5,6 +5,7 @@ import (
 	"sync"
 
 	"github.com/lyraproj/dgo/dgo"
+	"github.com/lyraproj/dgo/util"
 )
 
 type (
@@ -20,6 +21,7 @@ type (
 	aliasAdder struct {
 		namedTypes hashMap
 		backingMap dgo.AliasMap
+		resolving  []dgo.Value // containers that are being resolved
 	}
 
 	dType        = dgo.Type // To avoid collision with method named Type
@@ -179,6 +181,15 @@ func (a *aliasMap) update(am *aliasAdder) dgo.AliasMap {
 	return c
 }
 
+// isReference returns true if the value is an interim type that is replaced when it is resolved.
+func isReference(v dgo.Value) bool {
+	switch v.(type) {
+	case *deferredCall, dgo.Alias:
+		return true
+	}
+	return false
+}
+
 // GetName returns the name for the given type or nil if the type isn't found
 func (a *aliasMap) GetName(t dgo.Type) dgo.String {
 	if v := a.typeNames.Get(t); v != nil {
@@ -221,7 +232,13 @@ func (a *aliasAdder) Replace(t dgo.Value) dgo.Value {
 		}
 		panic(fmt.Errorf(`reference to unresolved type '%s'`, t.Reference()))
 	case dgo.AliasContainer:
-		t.Resolve(a)
+		c := t.(dgo.Value)
+		if !util.RecursionHit(a.resolving, c) {
+			n := len(a.resolving)
+			a.resolving = append(a.resolving, c)
+			defer func() { a.resolving = a.resolving[:n] }()
+			t.Resolve(a)
+		}
 	}
 	return t
 }
diff --git a/internal/array.go b/internal/array.go
index cb8707a..d6d5adf 100644
--- a/internal/array.go
+++ b/internal/array.go
@@ -268,9 +268,9 @@ func (t *sizedArrayType) New(arg dgo.Value) dgo.Value {
 }
 
 func (t *sizedArrayType) Resolve(ap dgo.AliasAdder) {
-	te := t.elementType
-	t.elementType = DefaultAnyType
-	t.elementType = ap.Replace(te).(dgo.Type)
+	if te := ap.Replace(t.elementType).(dgo.Type); isReference(t.elementType) {
+		t.elementType = te
+	}
 }
 
 func (t *sizedArrayType) ReflectType() reflect.Type {
@@ -654,10 +654,7 @@ func (t *tupleType) ReflectType() reflect.Type {
 }
 
 func (t *tupleType) Resolve(ap dgo.AliasAdder) {
-	s := t.types
-	t.types = nil
-	resolveSlice(s, ap)
-	t.types = s
+	resolveSlice(t.types, ap)
 }
 
 func (t *tupleType) String() string {
@@ -1243,10 +1240,7 @@ func (v *array) RemoveValue(value interface{}) bool {
 }
 
 func (v *array) Resolve(ap dgo.AliasAdder) {
-	a := v.slice
-	for i := range a {
-		a[i] = ap.Replace(a[i])
-	}
+	resolveSlice(v.slice, ap)
 }
 
 func (v *array) Reject(predicate dgo.Predicate) dgo.Array {
@@ -1466,8 +1460,12 @@ func frozenArray(f string) error {
 	return fmt.Errorf(`%s called on a frozen Array`, f)
 }
 
+// resolveSlice replaces the elements of the slice. Elements that aren't references are not assigned since the slice may
+// be in use by other go routines if it is fully resolved already.
 func resolveSlice(ts []dgo.Value, ap dgo.AliasAdder) {
 	for i := range ts {
-		ts[i] = ap.Replace(ts[i])
+		if r := ap.Replace(ts[i]); isReference(ts[i]) {
+			ts[i] = r
+		}
 	}
 }
diff --git a/internal/function.go b/internal/function.go
index 6c18f39..0badf57 100644
--- a/internal/function.go
+++ b/internal/function.go
@@ -270,13 +270,8 @@ func (t *functionType) Out() dgo.TupleType {
 }
 
 func (t *functionType) Resolve(ap dgo.AliasAdder) {
-	ta, tr := t.arguments, t.returns
-	t.arguments = EmptyTupleType
-	t.returns = EmptyTupleType
-	ta = ap.Replace(ta).(dgo.TupleType)
-	tr = ap.Replace(tr).(dgo.TupleType)
-	t.arguments = ta
-	t.returns = tr
+	ap.Replace(t.arguments)
+	ap.Replace(t.returns)
 }
 
 func (t *functionType) ReflectType() reflect.Type {
diff --git a/internal/map.go b/internal/map.go
index e89343c..4c0800e 100644
--- a/internal/map.go
+++ b/internal/map.go
@@ -808,7 +808,9 @@ func (g *hashMap) RemoveAll(keys dgo.Array) {
 
 func (g *hashMap) Resolve(ap dgo.AliasAdder) {
 	for e := g.first; e != nil; e = e.next {
-		e.value = ap.Replace(e.value)
+		if r := ap.Replace(e.value); isReference(e.value) {
+			e.value = r
+		}
 	}
 }
 
@@ -1154,14 +1156,12 @@ func (t *sizedMapType) ReflectType() reflect.Type {
 }
 
 func (t *sizedMapType) Resolve(ap dgo.AliasAdder) {
-	kt := t.keyType
-	vt := t.valueType
-	t.keyType = DefaultAnyType
-	t.valueType = DefaultAnyType
-	kt = ap.Replace(kt).(dgo.Type)
-	vt = ap.Replace(vt).(dgo.Type)
-	t.keyType = kt
-	t.valueType = vt
+	if kt := ap.Replace(t.keyType).(dgo.Type); isReference(t.keyType) {
+		t.keyType = kt
+	}
+	if vt := ap.Replace(t.valueType).(dgo.Type); isReference(t.valueType) {
+		t.valueType = vt
+	}
 }
 
 func (t *sizedMapType) String() string {
diff --git a/internal/mapstruct.go b/internal/mapstruct.go
index b2cbfce..da84bc1 100644
--- a/internal/mapstruct.go
+++ b/internal/mapstruct.go
@@ -327,16 +327,8 @@ func (t *structType) ReflectType() reflect.Type {
 }
 
 func (t *structType) Resolve(ap dgo.AliasAdder) {
-	ks := t.keys.slice
-	vs := t.values.slice
-	t.keys.slice = []dgo.Value{}
-	t.values.slice = []dgo.Value{}
-	for i := range ks {
-		ks[i] = ap.Replace(ks[i].(dgo.Type))
-		vs[i] = ap.Replace(vs[i].(dgo.Type))
-	}
-	t.keys.slice = ks
-	t.values.slice = vs
+	resolveSlice(t.keys.slice, ap)
+	resolveSlice(t.values.slice, ap)
 	t.checkExactKeys()
 }
 
diff --git a/internal/meta.go b/internal/meta.go
index a34bd8d..e22b073 100644
--- a/internal/meta.go
+++ b/internal/meta.go
@@ -111,9 +111,11 @@ func (t *metaType) ReflectType() reflect.Type {
 }
 
 func (t *metaType) Resolve(ap dgo.AliasAdder) {
-	tp := t.tp
-	t.tp = DefaultAnyType
-	t.tp = ap.Replace(tp).(dgo.Type)
+	if t.tp != nil {
+		if tp := ap.Replace(t.tp).(dgo.Type); isReference(t.tp) {
+			t.tp = tp
+		}
+	}
 }
 
 func (t *metaType) String() string {
diff --git a/internal/not.go b/internal/not.go
index 267a6d0..5ecb9f5 100644
--- a/internal/not.go
+++ b/internal/not.go
@@ -96,9 +96,9 @@ func (t *notType) ReflectType() reflect.Type {
 }
 
 func (t *notType) Resolve(ap dgo.AliasAdder) {
-	tn := t.negated
-	t.negated = DefaultAnyType
-	t.negated = ap.Replace(tn).(dgo.Type)
+	if tn := ap.Replace(t.negated).(dgo.Type); isReference(t.negated) {
+		t.negated = tn
+	}
 }
 
 func (t *notType) String() string {
diff --git a/internal/sensitive.go b/internal/sensitive.go
index 19a7c61..a9b775e 100644
--- a/internal/sensitive.go
+++ b/internal/sensitive.go
@@ -77,9 +77,9 @@ func (t *sensitiveType) ReflectType() reflect.Type {
 }
 
 func (t *sensitiveType) Resolve(ap dgo.AliasAdder) {
-	tw := t.wrapped
-	t.wrapped = DefaultAnyType
-	t.wrapped = ap.Replace(tw).(dgo.Type)
+	if tw := ap.Replace(t.wrapped).(dgo.Type); isReference(t.wrapped) {
+		t.wrapped = tw
+	}
 }
 
 func (t *sensitiveType) Operand() dgo.Type {
diff --git a/internal/ternary.go b/internal/ternary.go
index 431b9a4..20488b0 100644
--- a/internal/ternary.go
+++ b/internal/ternary.go
@@ -129,10 +129,7 @@ func (t *allOfType) ReflectType() reflect.Type {
 }
 
 func (t *allOfType) Resolve(ap dgo.AliasAdder) {
-	s := t.slice
-	t.slice = nil
-	resolveSlice(s, ap)
-	t.slice = s
+	resolveSlice(t.slice, ap)
 }
 
 func (t *allOfType) String() string {
@@ -341,10 +338,7 @@ func (t *anyOfType) ReflectType() reflect.Type {
 }
 
 func (t *anyOfType) Resolve(ap dgo.AliasAdder) {
-	s := t.slice
-	t.slice = nil
-	resolveSlice(s, ap)
-	t.slice = s
+	resolveSlice(t.slice, ap)
 }
 
 func (t *anyOfType) String() string {
@@ -460,10 +454,7 @@ func (t *oneOfType) ReflectType() reflect.Type {
 }
 
 func (t *oneOfType) Resolve(ap dgo.AliasAdder) {
-	s := t.slice
-	t.slice = nil
-	resolveSlice(s, ap)
-	t.slice = s
+	resolveSlice(t.slice, ap)
 }
 
 func (t *oneOfType) String() string {
-- 
2.43.0


From d6cda6c2034e392ee1ae7b7d361b9264c8342b21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:44:33 +0000
Subject: [PATCH 059/126] fix: control characters are mistaken for tokens by
 the lexers, and NUL for the end of the text

---
 parser/lexer.go         | 3 +++
 streamer/pcore/lexer.go | 3 +++
 util/reader.go          | 7 ++++++-
 3 files changed, 12 insertions(+), 1 deletion(-)

diff --git a/parser/lexer.go b/parser/lexer.go
index 535400d..357b864 100644
--- a/parser/lexer.go
+++ b/parser/lexer.go
@@ -151,6 +151,9 @@ func buildToken(r rune, sr *util.StringReader) *Token {
 		buf := bytes.NewBufferString(``)
 		consumeIdentifier(sr, r, buf)
 		return &Token{buf.String(), identifier}
+	case r < ' ':
+		// control characters must not be mistaken for token types
+		panic(badToken(r))
 	default:
 		return &Token{Type: int(r)}
 	}
diff --git a/streamer/pcore/lexer.go b/streamer/pcore/lexer.go
index e5750eb..bc91101 100644
--- a/streamer/pcore/lexer.go
+++ b/streamer/pcore/lexer.go
@@ -106,6 +106,9 @@ func buildToken(r rune, sr *util.StringReader) *parser.Token {
 		buf := bytes.NewBufferString(``)
 		consumeIdentifier(sr, r, buf)
 		return &parser.Token{Value: buf.String(), Type: identifier}
+	case r < ' ':
+		// control characters must not be mistaken for token types
+		panic(badToken(r))
 	default:
 		return &parser.Token{Type: int(r)}
 	}
diff --git a/util/reader.go b/util/reader.go
index db510a6..9b555b5 100644
--- a/util/reader.go
+++ b/util/reader.go
@@ -18,7 +18,8 @@ func NewStringReader(s string) *StringReader {
 	return &StringReader{s: s}
 }
 
-// Next returns the next rune in the string and advances the position, or returns 0 if the end as been reached
+// Next returns the next rune in the string and advances the position, or returns 0 if the end as been reached. The
+// function panics if the next rune is a NUL character.
 func (r *StringReader) Next() rune {
 	if r.p >= len(r.s) {
 		if r.p == len(r.s) {
@@ -28,6 +29,10 @@ func (r *StringReader) Next() rune {
 		return 0
 	}
 	c := rune(r.s[r.p])
+	if c == 0 {
+		// must not be mistaken for the end
+		panic(errors.New("unexpected NUL character"))
+	}
 	if c < utf8.RuneSelf {
 		r.p++
 		if c == '\n' {
-- 
2.43.0


From 563dcf8027042e67e5f38589884137580696f7d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:44:35 +0000
Subject: [PATCH 060/126] fix: the parser fails with an internal error when
 elements follow a variadic element

---
 parser/parser.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/parser/parser.go b/parser/parser.go
index 8e4a1f1..9602ad6 100644
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -287,6 +287,14 @@ func (p *parser) list(endChar int) {
 			t = p.NextToken()
 			et := internal.ArrayType([]interface{}{p.PopLastType(), 0, math.MaxInt64})
 			p.Append(et)
+			if t.Type != endChar {
+				// the variadic element must be last
+				ex := exListEnd
+				if endChar == ')' {
+					ex = exRightParen
+				}
+				panic(badSyntax(t, ex))
+			}
 		}
 
 		if t.Type == endChar {
-- 
2.43.0


From d5609f780cedbfa2df0ad1545f397be670b79898 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:44:49 +0000
Subject: [PATCH 061/126] fix: the pcore parser fails with internal errors when
 types have too few or wrong arguments

---
 streamer/pcore/parser.go | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/streamer/pcore/parser.go b/streamer/pcore/parser.go
index 920456e..641c649 100644
--- a/streamer/pcore/parser.go
+++ b/streamer/pcore/parser.go
@@ -192,8 +192,8 @@ func (p *pcoreParser) aliasDeclaration(t *parser.Token) dgo.Value {
 			if am.GetType(s) == nil {
 				am.Add(parser.NewAlias(s), s)
 				p.element(p.NextToken())
-				tp := p.PopLast()
-				am.Add(tp.(dgo.Type), s)
+				tp := p.PopLastType()
+				am.Add(tp, s)
 				return tp
 			}
 		}
@@ -319,13 +319,13 @@ func callableType(p *pcoreParser) dgo.Value {
 	args := p.PopLast().(dgo.Array)
 	if args.Len() == 2 {
 		if params, ok := args.Get(0).(dgo.Array); ok {
-			rt = args.Get(1).(dgo.Type)
+			rt = vf.ArgumentsFromArray(args).Arg(`Callable`, 1, typ.Type).(dgo.Type)
 			args = params
 		}
 	}
 
 	argc := args.Len()
-	if block, ok := args.Get(argc - 1).(dgo.FunctionType); ok && argc > 1 {
+	if argc > 1 {
 		// In Puppet, if the last argument is a Function, then it is considered
 		// to be a block. Such a block is not a proper argument and may hence
 		// be preceded with one or two arguments denoting the argument tuple size.
@@ -333,7 +333,7 @@ func callableType(p *pcoreParser) dgo.Value {
 		// In dgo, there's no notion of a "block" but it is possible to pass
 		// a function as a parameter. To enable such passing, and still enable
 		// varargs, we pass the "block" function as the very first argument.
-		if argc > 1 {
+		if block, ok := args.Get(argc - 1).(dgo.FunctionType); ok {
 			args.Pop() // pop block
 			var n int64
 			if n, ok = getIfInt(args, argc-2, -1); ok {
@@ -752,6 +752,9 @@ func convertMapEntries(av dgo.Array) dgo.Array {
 }
 
 func getIfInt(args dgo.Array, arg int, dflt int64) (int64, bool) {
+	if arg < 0 {
+		return 0, false
+	}
 	switch v := args.Get(arg).(type) {
 	case dgo.Integer:
 		return v.GoInt(), true
-- 
2.43.0


From b214ab539397407fe44bcf9d9c5e0c97f1798e25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:45:31 +0000
Subject: [PATCH 062/126] fix: the type identifier of an exact named type
 cannot be printed

---
 dgo/typeidentifier.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/dgo/typeidentifier.go b/dgo/typeidentifier.go
index 7a1e603..dfb77b9 100644
--- a/dgo/typeidentifier.go
+++ b/dgo/typeidentifier.go
@@ -188,6 +188,7 @@ var tiLabels = map[TypeIdentifier]string{
 	TiFunction:      `function`,
 	TiFunctionExact: `function`,
 	TiNamed:         `named`,
+	TiNamedExact:    `named`,
 }
 
 func (ti TypeIdentifier) String() string {
-- 
2.43.0


From 409fec09bb7e41e6e68ad5322b46f88b5a93399c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:45:45 +0000
Subject: [PATCH 063/126] fix: copying a collection that contains itself
 overflows the stack

---
 internal/array.go     | 23 +++++++--------
 internal/compare.go   | 27 +++++++++++++++++
 internal/map.go       | 68 ++++++++++++++++++++-----------------------
 internal/sensitive.go | 19 +++++++-----
 internal/struct.go    | 38 ++++++++++++------------
 5 files changed, 101 insertions(+), 74 deletions(-)

diff --git a/internal/array.go b/internal/array.go
index d6d5adf..47a2e56 100644
--- a/internal/array.go
+++ b/internal/array.go
@@ -948,24 +948,21 @@ func (v *array) deepCompare(seen []dgo.Value, other deepCompare) (int, bool) {
 }
 
 func (v *array) Copy(frozen bool) dgo.Array {
+	return v.deepCopy(copies{}, frozen).(dgo.Array)
+}
+
+func (v *array) deepCopy(seen copies, frozen bool) dgo.Value {
 	if frozen && v.frozen {
 		return v
 	}
 	cp := util.SliceCopy(v.slice)
-	if frozen {
-		for i := range cp {
-			if f, ok := cp[i].(dgo.Freezable); ok {
-				cp[i] = f.FrozenCopy()
-			}
-		}
-	} else {
-		for i := range cp {
-			if f, ok := cp[i].(dgo.Freezable); ok {
-				cp[i] = f.ThawedCopy()
-			}
-		}
+	c := &array{slice: cp, frozen: frozen}
+	seen[v] = c
+	for i := range cp {
+		cp[i] = copyValue(seen, cp[i], frozen)
 	}
-	return &array{slice: cp, frozen: frozen}
+	delete(seen, v)
+	return c
 }
 
 func (v *array) ContainsAll(other dgo.Iterable) bool {
diff --git a/internal/compare.go b/internal/compare.go
index cd602d0..e6c5ac5 100644
--- a/internal/compare.go
+++ b/internal/compare.go
@@ -55,6 +55,33 @@ func sameNode(a, b dgo.Value) bool {
 	return false
 }
 
+// deepCopy is implemented by values that can contain themselves.
+type deepCopy interface {
+	deepCopy(seen copies, frozen bool) dgo.Value
+}
+
+// copies maps the values that are being copied to their copies. It ensures that the copy of a value that contains
+// itself is a value that contains itself.
+type copies map[dgo.Value]dgo.Value
+
+// copyValue returns a frozen or thawed copy of the given value if it is freezable. Other values are returned as is.
+func copyValue(seen copies, v dgo.Value, frozen bool) dgo.Value {
+	f, ok := v.(dgo.Freezable)
+	if !ok {
+		return v
+	}
+	if dc, ok := v.(deepCopy); ok {
+		if c, ok := seen[v]; ok {
+			return c
+		}
+		return dc.deepCopy(seen, frozen)
+	}
+	if frozen {
+		return f.FrozenCopy()
+	}
+	return f.ThawedCopy()
+}
+
 type deepCompare interface {
 	deepCompare(seen []dgo.Value, other deepCompare) (int, bool)
 }
diff --git a/internal/map.go b/internal/map.go
index 4c0800e..2595263 100644
--- a/internal/map.go
+++ b/internal/map.go
@@ -123,32 +123,40 @@ func (v *mapEntry) Frozen() bool {
 }
 
 func (v *mapEntry) FrozenCopy() dgo.Value {
-	if v.Frozen() {
-		return v
-	}
-	c := &mapEntry{key: v.key, value: v.value}
-	c.copyFreeze()
-	return c
+	return v.deepCopy(copies{}, true)
 }
 
 func (v *mapEntry) ThawedCopy() dgo.Value {
-	c := &mapEntry{key: v.key, value: v.value}
-	c.copyThaw()
-	return c
+	return v.deepCopy(copies{}, false)
 }
 
-func (v *hashNode) FrozenCopy() dgo.Value {
-	if v.Frozen() {
+func (v *mapEntry) deepCopy(seen copies, frozen bool) dgo.Value {
+	if frozen && v.Frozen() {
 		return v
 	}
-	c := &hashNode{mapEntry: mapEntry{key: v.key, value: v.value}}
-	c.copyFreeze()
+	c := &mapEntry{key: v.key}
+	seen[v] = c
+	c.value = copyValue(seen, v.value, frozen)
+	delete(seen, v)
 	return c
 }
 
+func (v *hashNode) FrozenCopy() dgo.Value {
+	return v.deepCopy(copies{}, true)
+}
+
 func (v *hashNode) ThawedCopy() dgo.Value {
-	c := &hashNode{mapEntry: mapEntry{key: v.key, value: v.value}}
-	c.copyThaw()
+	return v.deepCopy(copies{}, false)
+}
+
+func (v *hashNode) deepCopy(seen copies, frozen bool) dgo.Value {
+	if frozen && v.Frozen() {
+		return v
+	}
+	c := &hashNode{mapEntry: mapEntry{key: v.key}}
+	seen[v] = c
+	c.value = copyValue(seen, v.value, frozen)
+	delete(seen, v)
 	return c
 }
 
@@ -170,18 +178,6 @@ func (v *mapEntry) Value() dgo.Value {
 	return v.value
 }
 
-func (v *mapEntry) copyFreeze() {
-	if f, ok := v.value.(dgo.Freezable); ok {
-		v.value = f.FrozenCopy()
-	}
-}
-
-func (v *mapEntry) copyThaw() {
-	if f, ok := v.value.(dgo.Freezable); ok {
-		v.value = f.ThawedCopy()
-	}
-}
-
 var emptyMap = &hashMap{frozen: true}
 
 // Map creates an immutable dgo.Map from the given slice which must have 0, 1, or an
@@ -421,21 +417,21 @@ func (g *hashMap) ContainsKey(key interface{}) bool {
 }
 
 func (g *hashMap) Copy(frozen bool) dgo.Map {
+	return g.deepCopy(copies{}, frozen).(dgo.Map)
+}
+
+func (g *hashMap) deepCopy(seen copies, frozen bool) dgo.Value {
 	if frozen && g.frozen {
 		return g
 	}
 
 	c := &hashMap{len: g.len, frozen: frozen}
 	g.resize(c, 0)
-	if frozen {
-		for e := c.first; e != nil; e = e.next {
-			e.copyFreeze()
-		}
-	} else {
-		for e := c.first; e != nil; e = e.next {
-			e.copyThaw()
-		}
+	seen[g] = c
+	for e := c.first; e != nil; e = e.next {
+		e.value = copyValue(seen, e.value, frozen)
 	}
+	delete(seen, g)
 	return c
 }
 
@@ -581,7 +577,7 @@ func (g *hashMap) Map(mapper dgo.EntryMapper) dgo.Map {
 	for e := c.first; e != nil; e = e.next {
 		e.value = Value(mapper(e))
 		if g.frozen {
-			e.copyFreeze()
+			e.value = frozenCopy(e.value)
 		}
 	}
 	return c
diff --git a/internal/sensitive.go b/internal/sensitive.go
index a9b775e..ad0464c 100644
--- a/internal/sensitive.go
+++ b/internal/sensitive.go
@@ -143,17 +143,22 @@ func (v *sensitive) Frozen() bool {
 }
 
 func (v *sensitive) FrozenCopy() dgo.Value {
-	if f, ok := v.value.(dgo.Freezable); ok && !f.Frozen() {
-		return &sensitive{f.FrozenCopy()}
-	}
-	return v
+	return v.deepCopy(copies{}, true)
 }
 
 func (v *sensitive) ThawedCopy() dgo.Value {
-	if f, ok := v.value.(dgo.Freezable); ok {
-		return &sensitive{f.ThawedCopy()}
+	return v.deepCopy(copies{}, false)
+}
+
+func (v *sensitive) deepCopy(seen copies, frozen bool) dgo.Value {
+	if f, ok := v.value.(dgo.Freezable); !ok || frozen && f.Frozen() {
+		return v
 	}
-	return v
+	c := &sensitive{}
+	seen[v] = c
+	c.value = copyValue(seen, v.value, frozen)
+	delete(seen, v)
+	return c
 }
 
 func (v *sensitive) HashCode() int {
diff --git a/internal/struct.go b/internal/struct.go
index 71e2c1a..8ce2100 100644
--- a/internal/struct.go
+++ b/internal/struct.go
@@ -77,23 +77,29 @@ func (v *structVal) ContainsKey(key interface{}) bool {
 }
 
 func (v *structVal) Copy(frozen bool) dgo.Map {
+	return v.deepCopy(copies{}, frozen).(dgo.Map)
+}
+
+func (v *structVal) deepCopy(seen copies, frozen bool) dgo.Value {
 	if frozen && v.frozen {
 		return v
 	}
-	if frozen {
-		return v.FrozenCopy().(dgo.Map)
-	}
-	return v.ThawedCopy().(dgo.Map)
+	c := &structVal{frozen: frozen}
+	seen[v] = c
+	c.rs = v.copyStruct(seen, frozen)
+	delete(seen, v)
+	return c
 }
 
 // copyStruct returns an addressable copy of the struct. Values that could be shared between the struct and its copy
-// are replaced using the given copier.
-func (v *structVal) copyStruct(copier func(dgo.Freezable) dgo.Value) reflect.Value {
+// are replaced with frozen or thawed copies.
+func (v *structVal) copyStruct(seen copies, frozen bool) reflect.Value {
 	c := &structVal{rs: reflect.New(v.rs.Type()).Elem()}
 	c.rs.Set(v.rs)
 	c.eachField(func(_ string, fv reflect.Value) bool {
-		if f, ok := ValueFromReflected(fv).(dgo.Freezable); ok {
-			ReflectTo(copier(f), fv)
+		e := ValueFromReflected(fv)
+		if _, ok := e.(dgo.Freezable); ok {
+			ReflectTo(copyValue(seen, e, frozen), fv)
 		} else if fv.Kind() == reflect.Ptr && !fv.IsNil() && isBasic(fv.Type().Elem().Kind()) {
 			p := reflect.New(fv.Type().Elem())
 			p.Elem().Set(fv.Elem())
@@ -131,7 +137,7 @@ func (v *structVal) Equals(other interface{}) bool {
 func (v *structVal) GoStruct() interface{} {
 	if v.frozen {
 		// Don't expose pointer to frozen struct
-		return v.copyStruct(dgo.Freezable.FrozenCopy).Addr().Interface()
+		return v.copyStruct(copies{}, true).Addr().Interface()
 	}
 	return v.rs.Addr().Interface()
 }
@@ -168,7 +174,7 @@ func (v *structVal) Freeze() {
 			}
 		})
 		// The original struct remains mutable so a copy is needed
-		v.rs = v.copyStruct(dgo.Freezable.FrozenCopy)
+		v.rs = v.copyStruct(copies{}, true)
 	}
 }
 
@@ -177,15 +183,11 @@ func (v *structVal) Frozen() bool {
 }
 
 func (v *structVal) FrozenCopy() dgo.Value {
-	if v.frozen {
-		return v
-	}
-
-	return &structVal{rs: v.copyStruct(dgo.Freezable.FrozenCopy), frozen: true}
+	return v.deepCopy(copies{}, true)
 }
 
 func (v *structVal) ThawedCopy() dgo.Value {
-	return &structVal{rs: v.copyStruct(dgo.Freezable.ThawedCopy), frozen: false}
+	return v.deepCopy(copies{}, false)
 }
 
 func (v *structVal) Find(predicate dgo.EntryPredicate) dgo.MapEntry {
@@ -269,12 +271,12 @@ func (v *structVal) ReflectTo(value reflect.Value) {
 	if value.Kind() == reflect.Ptr {
 		if v.frozen {
 			// Don't expose pointer to frozen struct
-			value.Set(v.copyStruct(dgo.Freezable.FrozenCopy).Addr())
+			value.Set(v.copyStruct(copies{}, true).Addr())
 		} else {
 			value.Set(v.rs.Addr())
 		}
 	} else if v.frozen {
-		value.Set(v.copyStruct(dgo.Freezable.FrozenCopy))
+		value.Set(v.copyStruct(copies{}, true))
 	} else {
 		// copy struct by value
 		value.Set(v.rs)
-- 
2.43.0


From a014b832738373ce81a78a975484eafde72d63c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:28 +0000
Subject: [PATCH 064/126] fix: comparing and hashing recursive types that
 contain not, meta, or parameterized types overflows the stack

---
 internal/meta.go  | 14 +++++++++++---
 internal/named.go | 12 ++++++++++--
 internal/not.go   | 12 ++++++++++--
 3 files changed, 31 insertions(+), 7 deletions(-)

diff --git a/internal/meta.go b/internal/meta.go
index e22b073..03952f2 100644
--- a/internal/meta.go
+++ b/internal/meta.go
@@ -44,19 +44,27 @@ func (t *metaType) Describes() dgo.Type {
 }
 
 func (t *metaType) Equals(v interface{}) bool {
-	if mt, ok := v.(*metaType); ok {
+	return equals(nil, t, v)
+}
+
+func (t *metaType) deepEqual(seen []dgo.Value, other deepEqual) bool {
+	if mt, ok := other.(*metaType); ok {
 		if t.tp == nil {
 			return mt.tp == nil
 		}
-		return t.tp.Equals(mt.tp)
+		return mt.tp != nil && equals(seen, t.tp, mt.tp)
 	}
 	return false
 }
 
 func (t *metaType) HashCode() int {
+	return deepHashCode(nil, t)
+}
+
+func (t *metaType) deepHashCode(seen []dgo.Value) int {
 	h := int(dgo.TiMeta) * 1321
 	if t.tp != nil {
-		h += t.tp.HashCode()
+		h += deepHashCode(seen, t.tp)
 	}
 	return h
 }
diff --git a/internal/named.go b/internal/named.go
index f7d8da2..269d85d 100644
--- a/internal/named.go
+++ b/internal/named.go
@@ -199,8 +199,12 @@ func (t *parameterized) Assignable(other dgo.Type) bool {
 }
 
 func (t *parameterized) Equals(other interface{}) bool {
+	return equals(nil, t, other)
+}
+
+func (t *parameterized) deepEqual(seen []dgo.Value, other deepEqual) bool {
 	if ot, ok := other.(*parameterized); ok {
-		return t.NamedType.Equals(ot.NamedType) && t.params.Equals(ot.params)
+		return t.NamedType.Equals(ot.NamedType) && equals(seen, t.params, ot.params)
 	}
 	return false
 }
@@ -210,7 +214,11 @@ func (t *parameterized) Generic() dgo.Type {
 }
 
 func (t *parameterized) HashCode() int {
-	return t.NamedType.HashCode()*31 + t.params.HashCode()
+	return deepHashCode(nil, t)
+}
+
+func (t *parameterized) deepHashCode(seen []dgo.Value) int {
+	return t.NamedType.HashCode()*31 + deepHashCode(seen, t.params)
 }
 
 func (t *parameterized) Instance(value interface{}) bool {
diff --git a/internal/not.go b/internal/not.go
index 5ecb9f5..568db0b 100644
--- a/internal/not.go
+++ b/internal/not.go
@@ -23,14 +23,22 @@ func NotType(t dgo.Type) dgo.Type {
 }
 
 func (t *notType) Equals(other interface{}) bool {
+	return equals(nil, t, other)
+}
+
+func (t *notType) deepEqual(seen []dgo.Value, other deepEqual) bool {
 	if ot, ok := other.(*notType); ok {
-		return t.negated.Equals(ot.negated)
+		return equals(seen, t.negated, ot.negated)
 	}
 	return false
 }
 
 func (t *notType) HashCode() int {
-	return 1579 + t.negated.HashCode()
+	return deepHashCode(nil, t)
+}
+
+func (t *notType) deepHashCode(seen []dgo.Value) int {
+	return 1579 + deepHashCode(seen, t.negated)
 }
 
 func (t *notType) Assignable(other dgo.Type) bool {
-- 
2.43.0


From ca4da6d5dc09b64d1a20744494539b01952fc658 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:22 +0000
Subject: [PATCH 065/126] fix: a type alias that is defined as itself, or as a
 combination of itself, causes endless recursion

---
 internal/alias.go | 41 +++++++++++++++++++++++++++++++++++++++++
 1 file changed, 41 insertions(+)

diff --git a/internal/alias.go b/internal/alias.go
index 2edf591..3973f58 100644
--- a/internal/alias.go
+++ b/internal/alias.go
@@ -228,6 +228,12 @@ func (a *aliasAdder) Replace(t dgo.Value) dgo.Value {
 		return New(a.Replace(t.dType).(dgo.Type), a.Replace(t.args).(dgo.Arguments))
 	case dgo.Alias:
 		if ra := a.GetType(t.Reference()); ra != nil {
+			if a.isEndless(t, map[dgo.Type]bool{}) {
+				panic(fmt.Errorf(`type '%s' is defined as itself`, t.Reference()))
+			}
+			if isReference(ra) {
+				return a.Replace(ra)
+			}
 			return ra
 		}
 		panic(fmt.Errorf(`reference to unresolved type '%s'`, t.Reference()))
@@ -242,3 +248,38 @@ func (a *aliasAdder) Replace(t dgo.Value) dgo.Value {
 	}
 	return t
 }
+
+// isEndless returns true if the given type is an alias, or a combination of types, that refers to itself without any
+// type in between that describes the content of a value. Such a type does not describe anything. The active map holds
+// the types that have been visited. A type is active until everything that it refers to has been visited.
+func (a *aliasAdder) isEndless(t dgo.Type, active map[dgo.Type]bool) bool {
+	var ts []dgo.Value
+	switch t := t.(type) {
+	case dgo.Alias:
+		if ra := a.GetType(t.Reference()); ra != nil {
+			ts = []dgo.Value{ra}
+		}
+	case *notType:
+		ts = []dgo.Value{t.negated}
+	case *allOfType:
+		ts = t.slice
+	case *anyOfType:
+		ts = t.slice
+	case *oneOfType:
+		ts = t.slice
+	}
+	if len(ts) == 0 {
+		return false
+	}
+	if isActive, visited := active[t]; visited {
+		return isActive
+	}
+	active[t] = true
+	for i := range ts {
+		if et, ok := ts[i].(dgo.Type); ok && a.isEndless(et, active) {
+			return true
+		}
+	}
+	active[t] = false
+	return false
+}
-- 
2.43.0


From 7913882afb73c587fcd505c4cafcb2cec03b5182 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:31 +0000
Subject: [PATCH 066/126] fix: the failure to resolve a struct type with a key
 that is not exact is not an error

---
 internal/mapstruct.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/mapstruct.go b/internal/mapstruct.go
index da84bc1..91f4fbd 100644
--- a/internal/mapstruct.go
+++ b/internal/mapstruct.go
@@ -152,7 +152,7 @@ func (t *structType) checkExactKeys() {
 	ks := t.keys.slice
 	for i := range ks {
 		if !dgo.IsExact(ks[i].(dgo.Type)) {
-			panic(`non exact key types is not yet supported`)
+			panic(errors.New(`non exact key types is not yet supported`))
 		}
 	}
 }
-- 
2.43.0


From ed985f477fe6a8c4131e5aecc0b1a883cd0329c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:14 +0000
Subject: [PATCH 067/126] fix: the generic type of a value or type that
 contains itself overflows the stack

---
 internal/array.go     | 12 ++++++++++--
 internal/compare.go   | 30 ++++++++++++++++++++++++++++++
 internal/map.go       | 14 ++++++++++++--
 internal/mapstruct.go |  6 +++++-
 internal/sensitive.go |  2 +-
 internal/ternary.go   | 23 +++++++++++++++++++----
 internal/type.go      |  5 +----
 7 files changed, 78 insertions(+), 14 deletions(-)

diff --git a/internal/array.go b/internal/array.go
index 47a2e56..ee3672b 100644
--- a/internal/array.go
+++ b/internal/array.go
@@ -318,7 +318,11 @@ func (t *exactArrayType) ElementTypes() dgo.Array {
 }
 
 func (t *exactArrayType) Generic() dgo.Type {
-	return newArrayType(Generic(t.ElementType()), 0, math.MaxInt64)
+	return deepGeneric(nil, t)
+}
+
+func (t *exactArrayType) deepGeneric(seen []dgo.Value) dgo.Type {
+	return newArrayType(commonGeneric(seen, t.value.slice, genericOfValue), 0, math.MaxInt64)
 }
 
 func (t *exactArrayType) Len() int {
@@ -547,7 +551,11 @@ func tupleEquals(seen []dgo.Value, t dgo.TupleType, other interface{}) bool {
 }
 
 func (t *tupleType) Generic() dgo.Type {
-	return newArrayType(Generic(t.ElementType()), 0, math.MaxInt64)
+	return deepGeneric(nil, t)
+}
+
+func (t *tupleType) deepGeneric(seen []dgo.Value) dgo.Type {
+	return newArrayType(deepGeneric(seen, t.ElementType()), 0, math.MaxInt64)
 }
 
 func (t *tupleType) HashCode() int {
diff --git a/internal/compare.go b/internal/compare.go
index e6c5ac5..1ff4f03 100644
--- a/internal/compare.go
+++ b/internal/compare.go
@@ -82,6 +82,36 @@ func copyValue(seen copies, v dgo.Value, frozen bool) dgo.Value {
 	return f.ThawedCopy()
 }
 
+// deepGenericType is implemented by types with a generic form that is composed from the generic forms of other types.
+type deepGenericType interface {
+	deepGeneric(seen []dgo.Value) dgo.Type
+}
+
+// deepGeneric returns the generic form of the given type. The generic form of something that contains itself contains
+// the any type.
+func deepGeneric(seen []dgo.Value, t dgo.Type) dgo.Type {
+	if dg, ok := t.(deepGenericType); ok {
+		for i := range seen {
+			if sameNode(seen[i], t) {
+				return DefaultAnyType
+			}
+		}
+		return dg.deepGeneric(append(seen, t))
+	}
+	if gt, ok := t.(dgo.GenericType); ok {
+		return gt.Generic()
+	}
+	return t
+}
+
+// genericOfValue returns the generic form of the type of the given value.
+func genericOfValue(seen []dgo.Value, v dgo.Value) dgo.Type {
+	if s, ok := v.(*sensitive); ok {
+		return &sensitiveType{wrapped: genericOfValue(seen, s.value)}
+	}
+	return deepGeneric(seen, v.Type())
+}
+
 type deepCompare interface {
 	deepCompare(seen []dgo.Value, other deepCompare) (int, bool)
 }
diff --git a/internal/map.go b/internal/map.go
index 2595263..f35adf4 100644
--- a/internal/map.go
+++ b/internal/map.go
@@ -1255,8 +1255,18 @@ func (t *exactMapType) Each(actor func(dgo.StructMapEntry)) {
 }
 
 func (t *exactMapType) Generic() dgo.Type {
-	kt := Generic(t.KeyType())
-	vt := Generic(t.ValueType())
+	return deepGeneric(nil, t)
+}
+
+func (t *exactMapType) deepGeneric(seen []dgo.Value) dgo.Type {
+	ks := make([]dgo.Value, 0, t.value.Len())
+	vs := make([]dgo.Value, 0, t.value.Len())
+	t.value.EachEntry(func(e dgo.MapEntry) {
+		ks = append(ks, e.Key())
+		vs = append(vs, e.Value())
+	})
+	kt := commonGeneric(seen, ks, genericOfValue)
+	vt := commonGeneric(seen, vs, genericOfValue)
 	if kt == DefaultAnyType && vt == DefaultAnyType {
 		return DefaultMapType
 	}
diff --git a/internal/mapstruct.go b/internal/mapstruct.go
index 91f4fbd..86c9ee7 100644
--- a/internal/mapstruct.go
+++ b/internal/mapstruct.go
@@ -229,10 +229,14 @@ func (t *structType) deepEqual(seen []dgo.Value, other deepEqual) bool {
 }
 
 func (t *structType) Generic() dgo.Type {
+	return deepGeneric(nil, t)
+}
+
+func (t *structType) deepGeneric(seen []dgo.Value) dgo.Type {
 	if t.additional {
 		return DefaultMapType // the additional entries can be of any type
 	}
-	return newMapType(Generic(t.KeyType()), Generic(t.ValueType()), 0, math.MaxInt64)
+	return newMapType(deepGeneric(seen, t.KeyType()), deepGeneric(seen, t.ValueType()), 0, math.MaxInt64)
 }
 
 func (t *structType) HashCode() int {
diff --git a/internal/sensitive.go b/internal/sensitive.go
index ad0464c..6c5479f 100644
--- a/internal/sensitive.go
+++ b/internal/sensitive.go
@@ -174,7 +174,7 @@ func (v *sensitive) String() string {
 }
 
 func (v *sensitive) Type() dgo.Type {
-	return &sensitiveType{wrapped: Generic(v.value.Type())}
+	return genericOfValue(nil, v).(*sensitiveType)
 }
 
 func (v *sensitive) Unwrap() dgo.Value {
diff --git a/internal/ternary.go b/internal/ternary.go
index 20488b0..761fd19 100644
--- a/internal/ternary.go
+++ b/internal/ternary.go
@@ -91,7 +91,11 @@ func (t *allOfType) deepEqual(seen []dgo.Value, other deepEqual) bool {
 }
 
 func (t *allOfType) Generic() dgo.Type {
-	return commonGeneric(t.slice, typeAsType)
+	return deepGeneric(nil, t)
+}
+
+func (t *allOfType) deepGeneric(seen []dgo.Value) dgo.Type {
+	return commonGeneric(seen, t.slice, genericOfType)
 }
 
 func (t *allOfType) HashCode() int {
@@ -178,7 +182,11 @@ func (t *allOfValueType) AssignableTo(guard dgo.RecursionGuard, other dgo.Type)
 }
 
 func (t *allOfValueType) Generic() dgo.Type {
-	return commonGeneric(t.slice, valueAsType)
+	return deepGeneric(nil, t)
+}
+
+func (t *allOfValueType) deepGeneric(seen []dgo.Value) dgo.Type {
+	return commonGeneric(seen, t.slice, genericOfValue)
 }
 
 func (t *allOfValueType) Equals(other interface{}) bool {
@@ -471,10 +479,13 @@ func (t *oneOfType) TypeIdentifier() dgo.TypeIdentifier {
 
 // commonGeneric returns the least generic type that is assignable from all types given
 // in the slice.
-func commonGeneric(s []dgo.Value, fc func(dgo.Value) dgo.Type) dgo.Type {
+func commonGeneric(seen, s []dgo.Value, fc func([]dgo.Value, dgo.Value) dgo.Type) dgo.Type {
+	if len(s) == 0 {
+		return DefaultAnyType
+	}
 	var prev dgo.Type
 	for i := range s {
-		rt := Generic(fc(s[i]))
+		rt := fc(seen, s[i])
 		if prev != nil {
 			if prev.Assignable(rt) {
 				// prev is equal or more generic
@@ -600,3 +611,7 @@ func typeAsType(v dgo.Value) dgo.Type {
 func valueAsType(v dgo.Value) dgo.Type {
 	return v.Type()
 }
+
+func genericOfType(seen []dgo.Value, v dgo.Value) dgo.Type {
+	return deepGeneric(seen, v.(dgo.Type))
+}
diff --git a/internal/type.go b/internal/type.go
index e108ebb..be7d71c 100644
--- a/internal/type.go
+++ b/internal/type.go
@@ -73,10 +73,7 @@ func ExactValue(value dgo.Value) dgo.Value {
 // and also range and size information. Nested types will return a generic version of the contained
 // types as well.
 func Generic(t dgo.Type) dgo.Type {
-	if et, ok := t.(dgo.GenericType); ok {
-		return et.Generic()
-	}
-	return t
+	return deepGeneric(nil, t)
 }
 
 func illegalArgument(name, expected interface{}, args []interface{}, argno int) error {
-- 
2.43.0


From 7acb90e2014b0c8d61e149c2525f9448bdae7b04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:18 +0000
Subject: [PATCH 068/126] fix: the value type of the type of a map with values
 that cannot be frozen cannot be obtained

---
 internal/map.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/internal/map.go b/internal/map.go
index f35adf4..0734f56 100644
--- a/internal/map.go
+++ b/internal/map.go
@@ -1343,7 +1343,9 @@ func (t *exactMapType) ValueType() dgo.Type {
 	if l == 0 {
 		return DefaultAnyType
 	}
-	return (*allOfValueType)(arrayFromIterator(l, t.value.EachValue))
+	vs := make([]dgo.Value, 0, l)
+	t.value.EachValue(func(v dgo.Value) { vs = append(vs, v) })
+	return (*allOfValueType)(&array{slice: vs, frozen: true})
 }
 
 func frozenMap(f string) error {
-- 
2.43.0


From eecd21a5fb1fea3c32353140143901001e4e1c91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:50 +0000
Subject: [PATCH 069/126] fix: validation accepts unknown keys when the struct
 type has additional entries

---
 internal/mapstruct.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/internal/mapstruct.go b/internal/mapstruct.go
index 86c9ee7..03783fd 100644
--- a/internal/mapstruct.go
+++ b/internal/mapstruct.go
@@ -385,6 +385,9 @@ func validate(t dgo.StructMapType, keyLabel func(key dgo.Value) string, value in
 			errs = append(errs, fmt.Errorf(`missing required %s`, keyLabel(ek)))
 		}
 	})
+	if t.Additional() {
+		return errs
+	}
 	pm.EachKey(func(k dgo.Value) {
 		if t.Get(k) == nil {
 			errs = append(errs, fmt.Errorf(`unknown %s`, keyLabel(k)))
@@ -424,6 +427,9 @@ func validateVerbose(t dgo.StructMapType, value interface{}, out dgo.Indenter) b
 		}
 		out.NewLine()
 	})
+	if t.Additional() {
+		return ok
+	}
 	pm.EachKey(func(k dgo.Value) {
 		if t.Get(k) == nil {
 			ok = false
-- 
2.43.0


From bdcd9e1535e5adaf3b10da271444dd9759b77bc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:04 +0000
Subject: [PATCH 070/126] fix: validation against the exact type of a map
 follows the instance check

---
 internal/mapstruct.go | 107 +++++++++++++++++++++++++++---------------
 1 file changed, 68 insertions(+), 39 deletions(-)

diff --git a/internal/mapstruct.go b/internal/mapstruct.go
index 03783fd..cb9d7a3 100644
--- a/internal/mapstruct.go
+++ b/internal/mapstruct.go
@@ -364,6 +364,47 @@ func (t *structType) ValidateVerbose(value interface{}, out dgo.Indenter) bool {
 	return validateVerbose(t, value, out)
 }
 
+// validationEntry describes what a value must fulfill to be accepted as the value of a key
+type validationEntry struct {
+	key       dgo.Value
+	valueType dgo.Type
+	accept    func(interface{}) bool
+	required  bool
+}
+
+func validationEntries(t dgo.StructMapType) []validationEntry {
+	es := make([]validationEntry, 0, t.Len())
+	if et, ok := t.(*exactMapType); ok {
+		et.value.EachEntry(func(e dgo.MapEntry) {
+			es = append(es, validationEntry{e.Key(), e.Value().Type(), e.Value().Equals, true})
+		})
+	} else {
+		t.Each(func(e dgo.StructMapEntry) {
+			vt := e.Value().(dgo.Type)
+			es = append(es, validationEntry{e.Key().(dgo.ExactType).ExactValue(), vt, vt.Instance, e.Required()})
+		})
+	}
+	return es
+}
+
+// unknownKeys returns the keys of the given map that are neither described by the given entries nor accepted
+// as additional keys
+func unknownKeys(t dgo.StructMapType, es []validationEntry, m dgo.Map) (ks []dgo.Value) {
+	if t.Additional() {
+		return nil
+	}
+	known := MapWithCapacity(len(es))
+	for i := range es {
+		known.Put(es[i].key, Nil)
+	}
+	m.EachKey(func(k dgo.Value) {
+		if !known.ContainsKey(k) {
+			ks = append(ks, k)
+		}
+	})
+	return ks
+}
+
 func validate(t dgo.StructMapType, keyLabel func(key dgo.Value) string, value interface{}) []error {
 	var errs []error
 	pm, ok := Value(value).(dgo.Map)
@@ -374,25 +415,19 @@ func validate(t dgo.StructMapType, keyLabel func(key dgo.Value) string, value in
 	if keyLabel == nil {
 		keyLabel = parameterLabel
 	}
-	t.Each(func(e dgo.StructMapEntry) {
-		ek := e.Key().(dgo.ExactType).ExactValue()
-		if v := pm.Get(ek); v != nil {
-			ev := e.Value().(dgo.Type)
-			if !ev.Instance(v) {
-				errs = append(errs, fmt.Errorf(`%s is not an instance of type %s`, keyLabel(ek), ev))
+	es := validationEntries(t)
+	for _, e := range es {
+		if v := pm.Get(e.key); v != nil {
+			if !e.accept(v) {
+				errs = append(errs, fmt.Errorf(`%s is not an instance of type %s`, keyLabel(e.key), e.valueType))
 			}
-		} else if e.Required() {
-			errs = append(errs, fmt.Errorf(`missing required %s`, keyLabel(ek)))
+		} else if e.required {
+			errs = append(errs, fmt.Errorf(`missing required %s`, keyLabel(e.key)))
 		}
-	})
-	if t.Additional() {
-		return errs
 	}
-	pm.EachKey(func(k dgo.Value) {
-		if t.Get(k) == nil {
-			errs = append(errs, fmt.Errorf(`unknown %s`, keyLabel(k)))
-		}
-	})
+	for _, k := range unknownKeys(t, es, pm) {
+		errs = append(errs, fmt.Errorf(`unknown %s`, keyLabel(k)))
+	}
 	return errs
 }
 
@@ -404,43 +439,37 @@ func validateVerbose(t dgo.StructMapType, value interface{}, out dgo.Indenter) b
 	}
 
 	inner := out.Indent()
-	t.Each(func(e dgo.StructMapEntry) {
-		ek := e.Key().(dgo.ExactType).ExactValue()
-		ev := e.Value().(dgo.Type)
-		out.Printf(`Validating '%s' against definition %s`, ek, ev)
+	es := validationEntries(t)
+	for _, e := range es {
+		out.Printf(`Validating '%s' against definition %s`, e.key, e.valueType)
 		inner.NewLine()
-		inner.Printf(`'%s' `, ek)
-		if v := pm.Get(ek); v != nil {
-			if ev.Instance(v) {
+		inner.Printf(`'%s' `, e.key)
+		if v := pm.Get(e.key); v != nil {
+			if e.accept(v) {
 				inner.Append(`OK!`)
 			} else {
 				ok = false
 				inner.Append(`FAILED!`)
 				inner.NewLine()
-				inner.Printf(`Reason: expected a value of type %s, got %s`, ev, v.Type())
+				inner.Printf(`Reason: expected a value of type %s, got %s`, e.valueType, v.Type())
 			}
-		} else if e.Required() {
+		} else if e.required {
 			ok = false
 			inner.Append(`FAILED!`)
 			inner.NewLine()
 			inner.Append(`Reason: required key not found in input`)
 		}
 		out.NewLine()
-	})
-	if t.Additional() {
-		return ok
 	}
-	pm.EachKey(func(k dgo.Value) {
-		if t.Get(k) == nil {
-			ok = false
-			out.Printf(`Validating '%s'`, k)
-			inner.NewLine()
-			inner.Printf(`'%s' FAILED!`, k)
-			inner.NewLine()
-			inner.Append(`Reason: key is not found in definition`)
-			out.NewLine()
-		}
-	})
+	for _, k := range unknownKeys(t, es, pm) {
+		ok = false
+		out.Printf(`Validating '%s'`, k)
+		inner.NewLine()
+		inner.Printf(`'%s' FAILED!`, k)
+		inner.NewLine()
+		inner.Append(`Reason: key is not found in definition`)
+		out.NewLine()
+	}
 	return ok
 }
 
-- 
2.43.0


From 57eb3bffaebebd83deb597faf18b29f35af0c3c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:52 +0000
Subject: [PATCH 071/126] fix: formatting verbs disclose the value of a
 sensitive

---
 internal/compare.go   |  2 +-
 internal/sensitive.go | 28 +++++++++++++++++-----------
 2 files changed, 18 insertions(+), 12 deletions(-)

diff --git a/internal/compare.go b/internal/compare.go
index 1ff4f03..aed6773 100644
--- a/internal/compare.go
+++ b/internal/compare.go
@@ -107,7 +107,7 @@ func deepGeneric(seen []dgo.Value, t dgo.Type) dgo.Type {
 // genericOfValue returns the generic form of the type of the given value.
 func genericOfValue(seen []dgo.Value, v dgo.Value) dgo.Type {
 	if s, ok := v.(*sensitive); ok {
-		return &sensitiveType{wrapped: genericOfValue(seen, s.value)}
+		return &sensitiveType{wrapped: genericOfValue(seen, s.Unwrap())}
 	}
 	return deepGeneric(seen, v.Type())
 }
diff --git a/internal/sensitive.go b/internal/sensitive.go
index 6c5479f..142738d 100644
--- a/internal/sensitive.go
+++ b/internal/sensitive.go
@@ -7,8 +7,10 @@ import (
 )
 
 type (
+	// sensitive keeps the wrapped value behind a pointer to an interface. The fmt package never follows such pointers,
+	// so no verb, applied to the sensitive or to something that contains it, can reveal the value.
 	sensitive struct {
-		value dgo.Value
+		content *dgo.Value
 	}
 
 	sensitiveType struct {
@@ -65,7 +67,7 @@ func (t *sensitiveType) deepHashCode(seen []dgo.Value) int {
 
 func (t *sensitiveType) Instance(value interface{}) bool {
 	if ov, ok := value.(*sensitive); ok {
-		return t.wrapped.Instance(ov.value)
+		return t.wrapped.Instance(ov.Unwrap())
 	}
 	return false
 }
@@ -113,9 +115,13 @@ func (t *sensitiveType) TypeIdentifier() dgo.TypeIdentifier {
 	return dgo.TiSensitive
 }
 
+func newSensitive(v dgo.Value) *sensitive {
+	return &sensitive{content: &v}
+}
+
 // Sensitive creates a new Sensitive that wraps the given value
 func Sensitive(v interface{}) dgo.Sensitive {
-	return &sensitive{Value(v)}
+	return newSensitive(Value(v))
 }
 
 func (v *sensitive) Equals(other interface{}) bool {
@@ -124,19 +130,19 @@ func (v *sensitive) Equals(other interface{}) bool {
 
 func (v *sensitive) deepEqual(seen []dgo.Value, other deepEqual) bool {
 	if ov, ok := other.(*sensitive); ok {
-		return equals(seen, v.value, ov.value)
+		return equals(seen, v.Unwrap(), ov.Unwrap())
 	}
 	return false
 }
 
 func (v *sensitive) Freeze() {
-	if f, ok := v.value.(dgo.Freezable); ok {
+	if f, ok := v.Unwrap().(dgo.Freezable); ok {
 		f.Freeze()
 	}
 }
 
 func (v *sensitive) Frozen() bool {
-	if f, ok := v.value.(dgo.Freezable); ok {
+	if f, ok := v.Unwrap().(dgo.Freezable); ok {
 		return f.Frozen()
 	}
 	return true
@@ -151,12 +157,12 @@ func (v *sensitive) ThawedCopy() dgo.Value {
 }
 
 func (v *sensitive) deepCopy(seen copies, frozen bool) dgo.Value {
-	if f, ok := v.value.(dgo.Freezable); !ok || frozen && f.Frozen() {
+	if f, ok := v.Unwrap().(dgo.Freezable); !ok || frozen && f.Frozen() {
 		return v
 	}
-	c := &sensitive{}
+	c := newSensitive(nil)
 	seen[v] = c
-	c.value = copyValue(seen, v.value, frozen)
+	*c.content = copyValue(seen, v.Unwrap(), frozen)
 	delete(seen, v)
 	return c
 }
@@ -166,7 +172,7 @@ func (v *sensitive) HashCode() int {
 }
 
 func (v *sensitive) deepHashCode(seen []dgo.Value) int {
-	return deepHashCode(seen, v.value) * 7
+	return deepHashCode(seen, v.Unwrap()) * 7
 }
 
 func (v *sensitive) String() string {
@@ -178,5 +184,5 @@ func (v *sensitive) Type() dgo.Type {
 }
 
 func (v *sensitive) Unwrap() dgo.Value {
-	return v.value
+	return *v.content
 }
-- 
2.43.0


From 56136a9309776ae84aed24f939cb8f6876dcb20c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:52 +0000
Subject: [PATCH 072/126] fix: creating a map from a dgo value gives a map over
 the internals of that value

---
 internal/map.go | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/internal/map.go b/internal/map.go
index 0734f56..b19c2ea 100644
--- a/internal/map.go
+++ b/internal/map.go
@@ -239,6 +239,14 @@ func mapFromArgs(args []interface{}, frozen bool) dgo.Map {
 			m.frozen = false
 			return m
 		}
+		switch v := a0.(type) {
+		case dgo.Map:
+			return v.Copy(frozen)
+		case dgo.Native:
+			a0 = v.GoValue()
+		case *errw, dgo.Array, dgo.Binary, dgo.Function, dgo.MapEntry, dgo.Regexp, dgo.Sensitive, dgo.String, dgo.Time, dgo.Type:
+			panic(fmt.Errorf(`illegal argument: %v is not a map, a struct, or an array with even number of elements`, v))
+		}
 		rm := reflect.ValueOf(a0)
 		switch rm.Kind() {
 		case reflect.Map:
@@ -254,7 +262,7 @@ func mapFromArgs(args []interface{}, frozen bool) dgo.Map {
 			rs.Set(rm)
 			return FromReflectedStruct(rs)
 		}
-		panic(fmt.Errorf(`illegal argument: %t is not a map, a struct, or an array with even number of elements`, a0))
+		panic(fmt.Errorf(`illegal argument: %v is not a map, a struct, or an array with even number of elements`, a0))
 	case l%2 == 0:
 		if frozen {
 			return Values(args).ToMap()
-- 
2.43.0


From 1047633eb31c03e7fd6d9d3d763b799aab03db13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:32 +0000
Subject: [PATCH 073/126] fix: an indenter's String must not consume its buffer
 or alter invalid UTF-8

---
 util/indenter.go | 28 +++++++++++-----------------
 1 file changed, 11 insertions(+), 17 deletions(-)

diff --git a/util/indenter.go b/util/indenter.go
index ba2efa8..94cf781 100644
--- a/util/indenter.go
+++ b/util/indenter.go
@@ -3,7 +3,6 @@ package util
 import (
 	"bytes"
 	"fmt"
-	"io"
 	"strconv"
 	"strings"
 
@@ -50,26 +49,21 @@ func (i *indenter) Reset() {
 }
 
 func (i *indenter) String() string {
-	n := bytes.NewBuffer(make([]byte, 0, i.b.Len()))
-	wb := &bytes.Buffer{}
-	for {
-		r, _, err := i.b.ReadRune()
-		if err == io.EOF {
-			break
-		}
-		if r == ' ' || r == '\t' {
+	bs := i.b.Bytes() // must not be consumed
+	n := &strings.Builder{}
+	ws := 0 // start of deferred whitespace
+	for p, c := range bs {
+		switch c {
+		case ' ', '\t':
 			// Defer whitespace output
-			WriteByte(wb, byte(r))
 			continue
-		}
-		if r == '\n' {
+		case '\n':
 			// Truncate trailing space
-			wb.Reset()
-		} else if wb.Len() > 0 {
-			_, _ = n.Write(wb.Bytes())
-			wb.Reset()
+		default:
+			_, _ = n.Write(bs[ws:p])
 		}
-		WriteRune(n, r)
+		_ = n.WriteByte(c)
+		ws = p + 1
 	}
 	return n.String()
 }
-- 
2.43.0


From 0ac209fcdea986c9674c5c5882a7351926c0989e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:19 +0000
Subject: [PATCH 074/126] fix: creating an array from something else must panic
 with a descriptive error

---
 internal/array.go | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/internal/array.go b/internal/array.go
index ee3672b..4722d84 100644
--- a/internal/array.go
+++ b/internal/array.go
@@ -706,12 +706,19 @@ func Array(value interface{}) dgo.Array {
 		}
 		return &array{slice: arr, frozen: true}
 	case reflect.Value:
-		return ValueFromReflected(value).(dgo.Array)
+		return arrayFromValue(ValueFromReflected(value))
 	default:
-		return ValueFromReflected(reflect.ValueOf(value)).(dgo.Array)
+		return arrayFromValue(ValueFromReflected(reflect.ValueOf(value)))
 	}
 }
 
+func arrayFromValue(value dgo.Value) dgo.Array {
+	if a, ok := value.(dgo.Array); ok {
+		return a
+	}
+	panic(fmt.Errorf(`illegal argument: %v is not an array, an iterable, or a slice`, value))
+}
+
 // arrayFromIterator creates an array from a size and an iterator goFunc. The
 // iterator goFunc is expected to call its actor exactly size number of times.
 func arrayFromIterator(size int, each func(dgo.Consumer)) *array {
-- 
2.43.0


From a0ecb0d04c52c27f964fffcc222c1398c4fec830 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:23 +0000
Subject: [PATCH 075/126] fix: New of a sensitive type must check the wrapped
 value

---
 internal/sensitive.go | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/internal/sensitive.go b/internal/sensitive.go
index 142738d..0f1ab6e 100644
--- a/internal/sensitive.go
+++ b/internal/sensitive.go
@@ -97,10 +97,14 @@ func (t *sensitiveType) New(arg dgo.Value) dgo.Value {
 		args.AssertSize(`sensitive`, 1, 1)
 		arg = args.Get(0)
 	}
-	if s, ok := arg.(dgo.Sensitive); ok {
-		return s
+	s, ok := arg.(dgo.Sensitive)
+	if !ok {
+		s = Sensitive(arg)
 	}
-	return Sensitive(arg)
+	if !t.Instance(s) {
+		panic(IllegalAssignment(t, s))
+	}
+	return s
 }
 
 func (t *sensitiveType) String() string {
-- 
2.43.0


From 4d2e4818395d3539f314e2e13bf152e39faac430 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:59 +0000
Subject: [PATCH 076/126] fix: a float that is out of range must not be
 converted to an arbitrary int or time

---
 internal/integer.go | 11 ++++++++++-
 internal/time.go    |  2 +-
 2 files changed, 11 insertions(+), 2 deletions(-)

diff --git a/internal/integer.go b/internal/integer.go
index 2821666..1566203 100644
--- a/internal/integer.go
+++ b/internal/integer.go
@@ -430,12 +430,21 @@ func newInt(t dgo.Type, arg dgo.Value) (i dgo.Integer) {
 	return i
 }
 
+// intFromFloat truncates the given float to an integer. It panics if the result isn't an int64
+func intFromFloat(f float64) int64 {
+	// -MinInt64 is the first float that is too large
+	if f >= math.MinInt64 && f < -math.MinInt64 {
+		return int64(f)
+	}
+	panic(fmt.Errorf(`the value %v cannot be converted to an int`, f))
+}
+
 func intFromConvertible(from dgo.Value, radix int) int64 {
 	switch from := from.(type) {
 	case dgo.Integer:
 		return from.GoInt()
 	case dgo.Float:
-		return int64(from.GoFloat())
+		return intFromFloat(from.GoFloat())
 	case *timeVal:
 		return from.GoTime().Unix()
 	case dgo.Boolean:
diff --git a/internal/time.go b/internal/time.go
index 9dabb2d..dbf8d48 100644
--- a/internal/time.go
+++ b/internal/time.go
@@ -105,7 +105,7 @@ func newTime(t dgo.Type, arg dgo.Value) dgo.Time {
 		tv = Time(time.Unix(arg.GoInt(), 0))
 	case dgo.Float:
 		s, f := math.Modf(arg.GoFloat())
-		tv = Time(time.Unix(int64(s), int64(f*1000000000.0)))
+		tv = Time(time.Unix(intFromFloat(s), int64(f*1000000000.0)))
 	case dgo.String:
 		tv = TimeFromString(arg.GoString())
 	default:
-- 
2.43.0


From faee6edfcc62efe2949c17e007aae8011b11850c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:12 +0000
Subject: [PATCH 077/126] fix: a Map from a nil Go map must panic with a
 descriptive error

---
 internal/map.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/internal/map.go b/internal/map.go
index b19c2ea..03d6fa0 100644
--- a/internal/map.go
+++ b/internal/map.go
@@ -250,7 +250,10 @@ func mapFromArgs(args []interface{}, frozen bool) dgo.Map {
 		rm := reflect.ValueOf(a0)
 		switch rm.Kind() {
 		case reflect.Map:
-			return FromReflectedMap(rm, frozen).(dgo.Map)
+			// nil is not converted to a Map
+			if m, ok := FromReflectedMap(rm, frozen).(dgo.Map); ok {
+				return m
+			}
 		case reflect.Ptr:
 			re := rm.Elem()
 			if re.Kind() == reflect.Struct {
-- 
2.43.0


From 2225598227780a99730bf38655bdc6de41c8df2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:45 +0000
Subject: [PATCH 078/126] fix: named types without an implementation type must
 not cause nil dereference when assigned

---
 internal/named.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/internal/named.go b/internal/named.go
index 269d85d..b6f5148 100644
--- a/internal/named.go
+++ b/internal/named.go
@@ -35,7 +35,12 @@ var namedTypes = sync.Map{}
 
 func defaultAsgChecker(t dgo.NamedType, other dgo.Type) bool {
 	if ot, ok := other.(dgo.NamedType); ok {
-		return ot.ReflectType().AssignableTo(t.AssignableType())
+		from, to := ot.ReflectType(), t.AssignableType()
+		if from == nil || to == nil {
+			// No implementation to go by
+			return ot.Name() == t.Name()
+		}
+		return from.AssignableTo(to)
 	}
 	return false
 }
-- 
2.43.0


From cf3b8e8676436f6b0375735d353c90a6e7a17af6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:49 +0000
Subject: [PATCH 079/126] fix: New of a named type must return an instance of
 that type

---
 internal/named.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/named.go b/internal/named.go
index b6f5148..41465e5 100644
--- a/internal/named.go
+++ b/internal/named.go
@@ -276,7 +276,7 @@ func newNamed(rt dgo.NamedType, arg dgo.Value) dgo.Value {
 		panic(fmt.Errorf(`creating new instances of %s is not possible`, rt.Name()))
 	}
 	v := t.ctor(arg)
-	if t.asgChecker == nil || t.asgChecker(rt, v.Type()) {
+	if rt.Instance(v) {
 		return v
 	}
 	panic(IllegalAssignment(rt, v))
-- 
2.43.0


From a90209cedbb75ede6c7aea69eb6710c43d0300bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:39 +0000
Subject: [PATCH 080/126] fix: a Go pointer obtained from a string must not
 give access to the string itself

---
 internal/string.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/internal/string.go b/internal/string.go
index 0041aed..a7603de 100644
--- a/internal/string.go
+++ b/internal/string.go
@@ -649,7 +649,8 @@ func (v *hstring) ReflectTo(value reflect.Value) {
 	case reflect.Interface:
 		value.Set(reflect.ValueOf(v.s))
 	case reflect.Ptr:
-		value.Set(reflect.ValueOf(&v.s))
+		s := v.s // never expose a pointer to the string itself
+		value.Set(reflect.ValueOf(&s))
 	default:
 		value.SetString(v.s)
 	}
-- 
2.43.0


From a9f54ea11fd28d7697f5488d0637a858a7d3e04b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:43 +0000
Subject: [PATCH 081/126] fix: a Go pointer obtained from an error must not
 give access to the error itself

---
 internal/error.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/internal/error.go b/internal/error.go
index 66d5944..7ede982 100644
--- a/internal/error.go
+++ b/internal/error.go
@@ -106,7 +106,8 @@ func (e *errw) Error() string {
 
 func (e *errw) ReflectTo(value reflect.Value) {
 	if value.Kind() == reflect.Ptr {
-		value.Set(reflect.ValueOf(&e.error))
+		err := e.error // never expose a pointer to the wrapped error itself
+		value.Set(reflect.ValueOf(&err))
 	} else {
 		value.Set(reflect.ValueOf(e.error))
 	}
-- 
2.43.0


From fb535e18dbaf63f04864410d6719df05c72480ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:38 +0000
Subject: [PATCH 082/126] fix: assigning an integer to a Go variable that is
 too small must panic, not truncate

---
 internal/integer.go | 52 ++++++++++-----------------------------------
 internal/value.go   |  7 ++++++
 2 files changed, 18 insertions(+), 41 deletions(-)

diff --git a/internal/integer.go b/internal/integer.go
index 1566203..081147c 100644
--- a/internal/integer.go
+++ b/internal/integer.go
@@ -304,53 +304,23 @@ func (v intVal) HashCode() int {
 }
 
 func (v intVal) ReflectTo(value reflect.Value) {
+	i := int64(v)
 	switch value.Kind() {
 	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
-		value.SetInt(int64(v))
+		if value.OverflowInt(i) {
+			panic(fmt.Errorf(`value %d overflows %s`, i, value.Type()))
+		}
+		value.SetInt(i)
 	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
-		value.SetUint(uint64(v))
+		if i < 0 || value.OverflowUint(uint64(i)) {
+			panic(fmt.Errorf(`value %d overflows %s`, i, value.Type()))
+		}
+		value.SetUint(uint64(i))
 	case reflect.Ptr:
-		value.Set(v.intPointer(value.Type().Elem().Kind()))
-	default:
-		value.Set(reflect.ValueOf(int64(v)))
-	}
-}
-
-func (v intVal) intPointer(kind reflect.Kind) reflect.Value {
-	var p reflect.Value
-	switch kind {
-	case reflect.Int:
-		gv := int(v)
-		p = reflect.ValueOf(&gv)
-	case reflect.Int8:
-		gv := int8(v)
-		p = reflect.ValueOf(&gv)
-	case reflect.Int16:
-		gv := int16(v)
-		p = reflect.ValueOf(&gv)
-	case reflect.Int32:
-		gv := int32(v)
-		p = reflect.ValueOf(&gv)
-	case reflect.Uint:
-		gv := uint(v)
-		p = reflect.ValueOf(&gv)
-	case reflect.Uint8:
-		gv := uint8(v)
-		p = reflect.ValueOf(&gv)
-	case reflect.Uint16:
-		gv := uint16(v)
-		p = reflect.ValueOf(&gv)
-	case reflect.Uint32:
-		gv := uint32(v)
-		p = reflect.ValueOf(&gv)
-	case reflect.Uint64:
-		gv := uint64(v)
-		p = reflect.ValueOf(&gv)
+		reflectToPtr(v, value)
 	default:
-		gv := int64(v)
-		p = reflect.ValueOf(&gv)
+		value.Set(reflect.ValueOf(i))
 	}
-	return p
 }
 
 func (v intVal) String() string {
diff --git a/internal/value.go b/internal/value.go
index 8d46ee8..e8b272f 100644
--- a/internal/value.go
+++ b/internal/value.go
@@ -163,6 +163,13 @@ func ReflectTo(src dgo.Value, dest reflect.Value) {
 	dest.Set(reflect.ValueOf(src))
 }
 
+// reflectToPtr assigns a pointer to a new Go value, created from the given src, to the given pointer destination
+func reflectToPtr(src dgo.Value, dest reflect.Value) {
+	p := reflect.New(dest.Type().Elem())
+	ReflectTo(src, p.Elem())
+	dest.Set(p)
+}
+
 // Add well known types like regexp, time, etc. here
 var wellKnownTypes = map[reflect.Type]dgo.Type{
 	reflect.TypeOf(&regexp.Regexp{}): DefaultRegexpType,
-- 
2.43.0


From bd6a07ca621e828746c61bf35a8b1cacc84281d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:42 +0000
Subject: [PATCH 083/126] fix: assigning a float to a float32 variable that is
 too small must panic, not become infinite

---
 internal/float.go | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/internal/float.go b/internal/float.go
index 9ea6ae9..a7da69a 100644
--- a/internal/float.go
+++ b/internal/float.go
@@ -292,13 +292,13 @@ func (v floatVal) ReflectTo(value reflect.Value) {
 	case reflect.Interface:
 		value.Set(reflect.ValueOf(float64(v)))
 	case reflect.Ptr:
-		if value.Type().Elem().Kind() == reflect.Float32 {
-			gv := float32(v)
-			value.Set(reflect.ValueOf(&gv))
-		} else {
-			gv := float64(v)
-			value.Set(reflect.ValueOf(&gv))
+		reflectToPtr(v, value)
+	case reflect.Float32:
+		f := float64(v)
+		if !math.IsInf(f, 0) && value.OverflowFloat(f) {
+			panic(fmt.Errorf(`value %v overflows %s`, f, value.Type()))
 		}
+		value.SetFloat(f)
 	default:
 		value.SetFloat(float64(v))
 	}
-- 
2.43.0


From ac1093cca480eb3cbf27a260c5caecf64be0e717 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:27 +0000
Subject: [PATCH 084/126] fix: a pointer to a Go time is a time, not a native

---
 internal/value.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/internal/value.go b/internal/value.go
index e8b272f..5b5a72d 100644
--- a/internal/value.go
+++ b/internal/value.go
@@ -64,6 +64,13 @@ func value(v interface{}) dgo.Value {
 		dv = Regexp(v)
 	case time.Time:
 		dv = (*timeVal)(&v)
+	case *time.Time:
+		if v == nil {
+			dv = Nil
+		} else {
+			t := *v
+			dv = (*timeVal)(&t)
+		}
 	case error:
 		dv = &errw{v}
 	case json.Number:
-- 
2.43.0


From cf0b22ed36b7c8cfaf397a1e0dbe0e15c5566cf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:28 +0000
Subject: [PATCH 085/126] fix: a nil pointer to a regexp must be Nil, not a
 regexp without expression

---
 internal/value.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/internal/value.go b/internal/value.go
index 5b5a72d..5c9d12d 100644
--- a/internal/value.go
+++ b/internal/value.go
@@ -61,7 +61,11 @@ func value(v interface{}) dgo.Value {
 	case []int:
 		dv = Integers(v)
 	case *regexp.Regexp:
-		dv = Regexp(v)
+		if v == nil {
+			dv = Nil
+		} else {
+			dv = Regexp(v)
+		}
 	case time.Time:
 		dv = (*timeVal)(&v)
 	case *time.Time:
-- 
2.43.0


From aaf4f9b9ae58625f70519d4ec7e9d58ca70aee78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:05 +0000
Subject: [PATCH 086/126] fix: any value must be assignable to a Go pointer to
 a variable that it can be assigned to

---
 internal/array.go   | 12 +++---------
 internal/binary.go  |  4 +---
 internal/boolean.go |  2 +-
 internal/error.go   |  3 +--
 internal/map.go     | 12 +++---------
 internal/string.go  |  3 +--
 6 files changed, 10 insertions(+), 26 deletions(-)

diff --git a/internal/array.go b/internal/array.go
index 4722d84..0a17b9f 100644
--- a/internal/array.go
+++ b/internal/array.go
@@ -1197,9 +1197,9 @@ func (v *array) Reduce(mi interface{}, reductor func(memo dgo.Value, elem dgo.Va
 
 func (v *array) ReflectTo(value reflect.Value) {
 	vt := value.Type()
-	ptr := vt.Kind() == reflect.Ptr
-	if ptr {
-		vt = vt.Elem()
+	if vt.Kind() == reflect.Ptr {
+		reflectToPtr(v, value)
+		return
 	}
 	if vt.Kind() == reflect.Interface && vt.Name() == `` {
 		vt = v.Type().ReflectType()
@@ -1215,12 +1215,6 @@ func (v *array) ReflectTo(value reflect.Value) {
 			ReflectTo(a[i], s.Index(i))
 		}
 	}
-	if ptr {
-		// The created slice cannot be addressed. A pointer to it is necessary
-		x := reflect.New(s.Type())
-		x.Elem().Set(s)
-		s = x
-	}
 	value.Set(s)
 }
 
diff --git a/internal/binary.go b/internal/binary.go
index 0643e36..0458a51 100644
--- a/internal/binary.go
+++ b/internal/binary.go
@@ -382,9 +382,7 @@ func (v *binary) HashCode() int {
 func (v *binary) ReflectTo(value reflect.Value) {
 	switch value.Kind() {
 	case reflect.Ptr:
-		x := reflect.New(reflectBinaryType)
-		x.Elem().SetBytes(v.GoBytes())
-		value.Set(x)
+		reflectToPtr(v, value)
 	case reflect.Slice:
 		value.SetBytes(v.GoBytes())
 	default:
diff --git a/internal/boolean.go b/internal/boolean.go
index 8ac7bb5..2c958a6 100644
--- a/internal/boolean.go
+++ b/internal/boolean.go
@@ -156,7 +156,7 @@ func (v boolean) ReflectTo(value reflect.Value) {
 	case reflect.Interface:
 		value.Set(reflect.ValueOf(b))
 	case reflect.Ptr:
-		value.Set(reflect.ValueOf(&b))
+		reflectToPtr(v, value)
 	default:
 		value.SetBool(b)
 	}
diff --git a/internal/error.go b/internal/error.go
index 7ede982..41a694b 100644
--- a/internal/error.go
+++ b/internal/error.go
@@ -106,8 +106,7 @@ func (e *errw) Error() string {
 
 func (e *errw) ReflectTo(value reflect.Value) {
 	if value.Kind() == reflect.Ptr {
-		err := e.error // never expose a pointer to the wrapped error itself
-		value.Set(reflect.ValueOf(&err))
+		reflectToPtr(e, value) // never expose a pointer to the wrapped error itself
 	} else {
 		value.Set(reflect.ValueOf(e.error))
 	}
diff --git a/internal/map.go b/internal/map.go
index 03d6fa0..79d9f60 100644
--- a/internal/map.go
+++ b/internal/map.go
@@ -715,9 +715,9 @@ func (g *hashMap) PutAll(associations dgo.Map) {
 
 func (g *hashMap) ReflectTo(value reflect.Value) {
 	ht := value.Type()
-	ptr := ht.Kind() == reflect.Ptr
-	if ptr {
-		ht = ht.Elem()
+	if ht.Kind() == reflect.Ptr {
+		reflectToPtr(g, value)
+		return
 	}
 	if ht.Kind() == reflect.Interface && ht.Name() == `` {
 		ht = g.Type().ReflectType()
@@ -732,12 +732,6 @@ func (g *hashMap) ReflectTo(value reflect.Value) {
 		ReflectTo(e.Value(), rv)
 		m.SetMapIndex(rk, rv)
 	})
-	if ptr {
-		// The created map cannot be addressed. A pointer to it is necessary
-		x := reflect.New(m.Type())
-		x.Elem().Set(m)
-		m = x
-	}
 	value.Set(m)
 }
 
diff --git a/internal/string.go b/internal/string.go
index a7603de..2de3855 100644
--- a/internal/string.go
+++ b/internal/string.go
@@ -649,8 +649,7 @@ func (v *hstring) ReflectTo(value reflect.Value) {
 	case reflect.Interface:
 		value.Set(reflect.ValueOf(v.s))
 	case reflect.Ptr:
-		s := v.s // never expose a pointer to the string itself
-		value.Set(reflect.ValueOf(&s))
+		reflectToPtr(v, value) // never expose a pointer to the string itself
 	default:
 		value.SetString(v.s)
 	}
-- 
2.43.0


From c6410b047d4bb3acaf40178f3bc6bf1b0974421d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:09 +0000
Subject: [PATCH 087/126] fix: an error must be assignable to a Go variable of
 its own pointer type

---
 internal/error.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/internal/error.go b/internal/error.go
index 41a694b..d822359 100644
--- a/internal/error.go
+++ b/internal/error.go
@@ -105,10 +105,10 @@ func (e *errw) Error() string {
 }
 
 func (e *errw) ReflectTo(value reflect.Value) {
-	if value.Kind() == reflect.Ptr {
+	if rv := reflect.ValueOf(e.error); value.Kind() == reflect.Ptr && !rv.Type().AssignableTo(value.Type()) {
 		reflectToPtr(e, value) // never expose a pointer to the wrapped error itself
 	} else {
-		value.Set(reflect.ValueOf(e.error))
+		value.Set(rv)
 	}
 }
 
-- 
2.43.0


From 7ad3277e16693d4de090ff80b7658a22f8896472 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:47 +0000
Subject: [PATCH 088/126] fix: a native that is a pointer must be assignable to
 a Go variable of its own type

---
 internal/native.go | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/internal/native.go b/internal/native.go
index d562a33..c5515b4 100644
--- a/internal/native.go
+++ b/internal/native.go
@@ -143,10 +143,8 @@ func structHash(rv *reflect.Value) int {
 
 func (v *native) ReflectTo(value reflect.Value) {
 	vr := (*reflect.Value)(v)
-	if value.Kind() == reflect.Ptr {
-		p := reflect.New(vr.Type())
-		p.Elem().Set(*vr)
-		value.Set(p)
+	if value.Kind() == reflect.Ptr && !vr.Type().AssignableTo(value.Type()) {
+		reflectToPtr(v, value)
 	} else {
 		value.Set(*vr)
 	}
-- 
2.43.0


From fd952e9469832bab8b325710495b29b0d772819a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:30 +0000
Subject: [PATCH 089/126] fix: the hash code of a native must be computable
 regardless of what the native contains

---
 internal/native.go | 63 ++++++++++++++++++++++++++++++++++++++++------
 1 file changed, 55 insertions(+), 8 deletions(-)

diff --git a/internal/native.go b/internal/native.go
index c5515b4..3571b87 100644
--- a/internal/native.go
+++ b/internal/native.go
@@ -119,24 +119,71 @@ func (v *native) HashCode() int {
 	case reflect.Ptr:
 		ev := rv.Elem()
 		if ev.Kind() == reflect.Struct {
-			return structHash(&ev)
+			return reflectHash(ev, maxHashDepth)
 		}
 		p := rv.Pointer()
 		return int(p ^ (p >> 32))
-	case reflect.Chan, reflect.Uintptr:
+	case reflect.Chan:
 		p := rv.Pointer()
 		return int(p ^ (p >> 32))
+	case reflect.Uintptr:
+		p := rv.Uint()
+		return int(p ^ (p >> 32))
 	case reflect.Struct:
-		return structHash(rv) * 3
+		return reflectHash(*rv, maxHashDepth) * 3
 	}
 	return 1234
 }
 
-func structHash(rv *reflect.Value) int {
-	n := rv.NumField()
-	h := 1
-	for i := 0; i < n; i++ {
-		h = h*31 + ValueFromReflected(rv.Field(i)).HashCode()
+// maxHashDepth limits how deep a native is explored when its hash is computed. A slice can contain itself.
+const maxHashDepth = 5
+
+// reflectHash computes a hash that is equal for all values that reflect.DeepEqual considers equal.
+func reflectHash(rv reflect.Value, depth int) int {
+	h := int(rv.Kind())
+	switch rv.Kind() {
+	case reflect.Bool:
+		if rv.Bool() {
+			h = -h
+		}
+	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
+		h += intVal(rv.Int()).HashCode()
+	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uintptr:
+		h += intVal(rv.Uint()).HashCode()
+	case reflect.Float32, reflect.Float64:
+		h += floatVal(rv.Float()).HashCode()
+	case reflect.Complex64, reflect.Complex128:
+		c := rv.Complex()
+		h += floatVal(real(c)).HashCode()*31 + floatVal(imag(c)).HashCode()
+	case reflect.String:
+		h += util.StringHash(rv.String())
+	case reflect.Chan, reflect.UnsafePointer:
+		h += intVal(rv.Pointer()).HashCode()
+	case reflect.Map:
+		h += rv.Len()
+	case reflect.Slice, reflect.Array:
+		n := rv.Len()
+		h += n
+		if depth > 0 {
+			for i := 0; i < n; i++ {
+				h = h*31 + reflectHash(rv.Index(i), depth-1)
+			}
+		}
+	case reflect.Struct:
+		if depth > 0 {
+			for i := 0; i < rv.NumField(); i++ {
+				h = h*31 + reflectHash(rv.Field(i), depth-1)
+			}
+		}
+	case reflect.Interface:
+		if depth > 0 && !rv.IsNil() {
+			h = h*31 + reflectHash(rv.Elem(), depth-1)
+		}
+	case reflect.Ptr, reflect.Func:
+		// content of nested pointers is not included
+		if rv.IsNil() {
+			h = -h
+		}
 	}
 	return h
 }
-- 
2.43.0


From 730eff12b2bca5608835356fc7cc53b24468d406 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:32 +0000
Subject: [PATCH 090/126] fix: times and regexps must be assignable to a Go
 pointer to a pointer

---
 internal/regexp.go | 4 ++++
 internal/time.go   | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/internal/regexp.go b/internal/regexp.go
index f803e12..c70fa14 100644
--- a/internal/regexp.go
+++ b/internal/regexp.go
@@ -117,6 +117,10 @@ func (v *regexpVal) HashCode() int {
 func (v *regexpVal) ReflectTo(value reflect.Value) {
 	rv := reflect.ValueOf((*regexp.Regexp)(v))
 	k := value.Kind()
+	if k == reflect.Ptr && !rv.Type().AssignableTo(value.Type()) {
+		reflectToPtr(v, value)
+		return
+	}
 	if !(k == reflect.Ptr || k == reflect.Interface) {
 		rv = rv.Elem()
 	}
diff --git a/internal/time.go b/internal/time.go
index dbf8d48..dee62ab 100644
--- a/internal/time.go
+++ b/internal/time.go
@@ -169,6 +169,10 @@ func (v *timeVal) HashCode() int {
 func (v *timeVal) ReflectTo(value reflect.Value) {
 	rv := reflect.ValueOf((*time.Time)(v))
 	k := value.Kind()
+	if k == reflect.Ptr && !rv.Type().AssignableTo(value.Type()) {
+		reflectToPtr(v, value)
+		return
+	}
 	if !(k == reflect.Ptr || k == reflect.Interface) {
 		rv = rv.Elem()
 	}
-- 
2.43.0


From 0d080c8811b3d9db7fb656a64d2e32beb7549536 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:25 +0000
Subject: [PATCH 091/126] fix: types and sensitives must be assignable to a Go
 pointer to a value

---
 internal/value.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/internal/value.go b/internal/value.go
index 5c9d12d..f58e2ea 100644
--- a/internal/value.go
+++ b/internal/value.go
@@ -171,7 +171,12 @@ func ReflectTo(src dgo.Value, dest reflect.Value) {
 			return
 		}
 	}
-	dest.Set(reflect.ValueOf(src))
+	sv := reflect.ValueOf(src)
+	if dest.Kind() == reflect.Ptr && !sv.Type().AssignableTo(dest.Type()) {
+		reflectToPtr(src, dest)
+		return
+	}
+	dest.Set(sv)
 }
 
 // reflectToPtr assigns a pointer to a new Go value, created from the given src, to the given pointer destination
-- 
2.43.0


From 2cb0343d9c1f67f49da750d30c499e344b37bdd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:30 +0000
Subject: [PATCH 092/126] fix: assigning a map to a Go map must panic when keys
 collapse, not drop entries

---
 internal/map.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/internal/map.go b/internal/map.go
index 79d9f60..62bddc6 100644
--- a/internal/map.go
+++ b/internal/map.go
@@ -732,6 +732,9 @@ func (g *hashMap) ReflectTo(value reflect.Value) {
 		ReflectTo(e.Value(), rv)
 		m.SetMapIndex(rk, rv)
 	})
+	if m.Len() != g.Len() {
+		panic(fmt.Errorf(`unable to assign map to %s: different keys become equal`, ht))
+	}
 	value.Set(m)
 }
 
-- 
2.43.0


From d61eefc9d763f673c97c9cc155ceb358f5100f97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:45 +0000
Subject: [PATCH 093/126] fix: the generic type of a collection must not depend
 on the order of its elements

---
 internal/ternary.go | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/internal/ternary.go b/internal/ternary.go
index 761fd19..740a424 100644
--- a/internal/ternary.go
+++ b/internal/ternary.go
@@ -483,20 +483,20 @@ func commonGeneric(seen, s []dgo.Value, fc func([]dgo.Value, dgo.Value) dgo.Type
 	if len(s) == 0 {
 		return DefaultAnyType
 	}
+	ts := make([]dgo.Type, len(s))
 	var prev dgo.Type
 	for i := range s {
 		rt := fc(seen, s[i])
-		if prev != nil {
-			if prev.Assignable(rt) {
-				// prev is equal or more generic
-				continue
-			}
-			if !prev.Assignable(rt) {
-				// prev is not compatible. Fall back to Any
-				return DefaultAnyType
-			}
+		ts[i] = rt
+		if prev == nil || !prev.Assignable(rt) {
+			prev = rt // make prev more generic
+		}
+	}
+	for i := range ts {
+		if !prev.Assignable(ts[i]) {
+			// no type is assignable from all of the others. Fall back to Any
+			return DefaultAnyType
 		}
-		prev = rt // make prev more generic
 	}
 	return prev
 }
-- 
2.43.0


From 8402b08acda5fffe490c3bb2fcc697ce775bcdf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:17 +0000
Subject: [PATCH 094/126] fix: a collection must not claim to be frozen after
 an attempt to freeze it has failed

---
 internal/array.go  | 10 ++++++++++
 internal/map.go    |  1 +
 internal/struct.go |  1 +
 3 files changed, 12 insertions(+)

diff --git a/internal/array.go b/internal/array.go
index 0a17b9f..2512166 100644
--- a/internal/array.go
+++ b/internal/array.go
@@ -1082,6 +1082,7 @@ func (v *array) Freeze() {
 		return
 	}
 	v.frozen = true
+	defer thawOnPanic(&v.frozen)
 	a := v.slice
 	for i := range a {
 		if f, ok := a[i].(dgo.Freezable); ok {
@@ -1090,6 +1091,15 @@ func (v *array) Freeze() {
 	}
 }
 
+// thawOnPanic is deferred by methods that set the given flag before they freeze the content of a collection. The
+// flag is reset when the content cannot be frozen.
+func thawOnPanic(frozen *bool) {
+	if e := recover(); e != nil {
+		*frozen = false
+		panic(e)
+	}
+}
+
 func (v *array) Frozen() bool {
 	return v.frozen
 }
diff --git a/internal/map.go b/internal/map.go
index 62bddc6..af6077e 100644
--- a/internal/map.go
+++ b/internal/map.go
@@ -497,6 +497,7 @@ func (g *hashMap) Find(predicate dgo.EntryPredicate) dgo.MapEntry {
 func (g *hashMap) Freeze() {
 	if !g.frozen {
 		g.frozen = true
+		defer thawOnPanic(&g.frozen)
 		for e := g.first; e != nil; e = e.next {
 			e.Freeze()
 		}
diff --git a/internal/struct.go b/internal/struct.go
index 8ce2100..37d82e8 100644
--- a/internal/struct.go
+++ b/internal/struct.go
@@ -168,6 +168,7 @@ func (v *structVal) deepHashCode(seen []dgo.Value) int {
 func (v *structVal) Freeze() {
 	if !v.frozen {
 		v.frozen = true
+		defer thawOnPanic(&v.frozen)
 		v.EachValue(func(e dgo.Value) {
 			if f, ok := e.(dgo.Freezable); ok {
 				f.Freeze()
-- 
2.43.0


From aad1081b35a77a6f4d9a72d1abc9564595f83fc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:44 +0000
Subject: [PATCH 095/126] fix: Nil must be assignable to a Go variable of a dgo
 interface type

---
 internal/value.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/internal/value.go b/internal/value.go
index f58e2ea..6a92ab9 100644
--- a/internal/value.go
+++ b/internal/value.go
@@ -176,6 +176,10 @@ func ReflectTo(src dgo.Value, dest reflect.Value) {
 		reflectToPtr(src, dest)
 		return
 	}
+	if src == Nil && !sv.Type().AssignableTo(dest.Type()) {
+		Nil.ReflectTo(dest)
+		return
+	}
 	dest.Set(sv)
 }
 
-- 
2.43.0


From 97053912fb81851a553d0293eb5ab2d6b5a5da25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:22 +0000
Subject: [PATCH 096/126] fix: adding aliases must not double the size of the
 alias map each time

---
 internal/alias.go | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/internal/alias.go b/internal/alias.go
index 3973f58..14d9aa4 100644
--- a/internal/alias.go
+++ b/internal/alias.go
@@ -159,12 +159,11 @@ func (a *aliasMap) Collect(adder func(dgo.AliasAdder)) dgo.AliasMap {
 }
 
 func (a *aliasMap) update(am *aliasAdder) dgo.AliasMap {
-	// Create a new alias map with enough room to fit the new entries
-	c := &aliasMap{}
+	// Create a copy of the alias map. It grows when needed
+	c := &aliasMap{typeNames: hashMap{len: a.typeNames.len}, namedTypes: hashMap{len: a.namedTypes.len}}
 	ns := am.namedTypes
-	na := ns.Len()
-	a.namedTypes.resize(&c.namedTypes, na)
-	a.typeNames.resize(&c.typeNames, na)
+	a.namedTypes.resize(&c.namedTypes, 0)
+	a.typeNames.resize(&c.typeNames, 0)
 
 	// Resolve the added entries
 	rs := ns.Map(func(e dgo.MapEntry) interface{} { return am.Replace(e.Value()) })
-- 
2.43.0


From 0e9678b2eca406130e5691e4a7d259c5355d2f4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:24 +0000
Subject: [PATCH 097/126] fix: comparing, hashing, and printing a loader must
 not race with lookups, and a copy must not share its maps

---
 loader/loader.go | 39 +++++++++++++++++++++++++++++++++++----
 1 file changed, 35 insertions(+), 4 deletions(-)

diff --git a/loader/loader.go b/loader/loader.go
index 1a2b02a..5ce27a7 100644
--- a/loader/loader.go
+++ b/loader/loader.go
@@ -180,8 +180,11 @@ func (l *loader) init(im dgo.Map) {
 }
 
 func (l *loader) initMap() dgo.Map {
-	m := l.mapLoader.initMap()
-	m.Put(`namespaces`, l.namespaces)
+	es, ns := l.snapshot()
+	m := vf.MapWithCapacity(5)
+	m.Put(`name`, l.name)
+	m.Put(`entries`, es)
+	m.Put(`namespaces`, ns)
 	return m
 }
 
@@ -209,15 +212,43 @@ func (l *loader) add(key, value dgo.Value) dgo.Value {
 	return value
 }
 
+// snapshot returns the current entries and namespaces. The returned maps are private copies if the loader can modify
+// the originals.
+func (l *loader) snapshot() (entries, namespaces dgo.Map) {
+	l.lock.RLock()
+	defer l.lock.RUnlock()
+	entries = l.entries
+	if l.finder != nil {
+		entries = shallowCopy(entries)
+	}
+	namespaces = l.namespaces
+	if l.nsCreator != nil {
+		namespaces = shallowCopy(namespaces)
+	}
+	return
+}
+
+func shallowCopy(m dgo.Map) dgo.Map {
+	c := vf.MapWithCapacity(m.Len())
+	c.PutAll(m)
+	return c
+}
+
 func (l *loader) Equals(other interface{}) bool {
 	if ov, ok := other.(*loader); ok {
-		return l.entries.Equals(ov.entries) && l.namespaces.Equals(ov.namespaces)
+		if l == ov {
+			return true
+		}
+		es, ns := l.snapshot()
+		oes, ons := ov.snapshot()
+		return es.Equals(oes) && ns.Equals(ons)
 	}
 	return false
 }
 
 func (l *loader) HashCode() int {
-	return l.entries.HashCode()*31 + l.namespaces.HashCode()
+	es, ns := l.snapshot()
+	return es.HashCode()*31 + ns.HashCode()
 }
 
 func (l *loader) Get(ki interface{}) dgo.Value {
-- 
2.43.0


From 01da6726deb4a0ec51b306539428c42397cd19d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:27 +0000
Subject: [PATCH 098/126] fix: all lookups of a name must give the value that
 was kept by the loader

---
 loader/loader.go | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/loader/loader.go b/loader/loader.go
index 5ce27a7..df391d9 100644
--- a/loader/loader.go
+++ b/loader/loader.go
@@ -192,12 +192,16 @@ func (l *loader) add(key, value dgo.Value) dgo.Value {
 	l.lock.Lock()
 	defer l.lock.Unlock()
 
-	addEntry := func(key, value dgo.Value) {
-		if old := l.entries.Get(key); old == nil {
+	addEntry := func(key, value dgo.Value) dgo.Value {
+		old := l.entries.Get(key)
+		if old == nil {
 			l.entries.Put(key, value)
-		} else if !old.Equals(value) {
+			return value
+		}
+		if !old.Equals(value) {
 			panic(fmt.Errorf(`attempt to override entry %q`, key))
 		}
+		return old
 	}
 
 	if m, ok := value.(multipleEntries); ok {
@@ -206,10 +210,9 @@ func (l *loader) add(key, value dgo.Value) dgo.Value {
 			panic(fmt.Errorf(`map returned from finder doesn't contain original key %q`, key))
 		}
 		m.EachEntry(func(e dgo.MapEntry) { addEntry(e.Key(), e.Value()) })
-	} else {
-		addEntry(key, value)
+		return l.entries.Get(key)
 	}
-	return value
+	return addEntry(key, value)
 }
 
 // snapshot returns the current entries and namespaces. The returned maps are private copies if the loader can modify
-- 
2.43.0


From babe1fc58ec6ca21b09bb5439ffbb9dfea6fee5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:12 +0000
Subject: [PATCH 099/126] fix: a namespace that is created concurrently must
 not be refused because the one that was kept has been used

---
 loader/loader.go | 38 +++++++++++++++++++++++++++++++++++++-
 1 file changed, 37 insertions(+), 1 deletion(-)

diff --git a/loader/loader.go b/loader/loader.go
index df391d9..3bbc854 100644
--- a/loader/loader.go
+++ b/loader/loader.go
@@ -301,7 +301,7 @@ func (l *loader) Namespace(name string) dgo.Loader {
 		if nil != old {
 			// Either the nsCreator did something wrong that resulted in the creation of this
 			// namespace or a another one has been created from another go routine.
-			if !old.Equals(ns) {
+			if !isDuplicate(old.(dgo.Loader), ns) {
 				panic(fmt.Errorf(`namespace %q is already defined`, name))
 			}
 
@@ -312,6 +312,42 @@ func (l *loader) Namespace(name string) dgo.Loader {
 	return ns
 }
 
+// isDuplicate returns true if two loaders that were created for the same namespace are interchangeable. They don't need
+// to be equal, because each one of them may already have loaded entries and namespaces that the other one has not.
+func isDuplicate(a, b dgo.Loader) bool {
+	switch av := a.(type) {
+	case *loader:
+		bv, ok := b.(*loader)
+		if !ok || (av.finder == nil) != (bv.finder == nil) || (av.nsCreator == nil) != (bv.nsCreator == nil) {
+			return a.Equals(b)
+		}
+		aes, ans := av.snapshot()
+		bes, bns := bv.snapshot()
+		if av.finder == nil {
+			if !aes.Equals(bes) {
+				return false
+			}
+		} else if !aes.All(func(e dgo.MapEntry) bool {
+			bo := bes.Get(e.Key())
+			return bo == nil || e.Value().Equals(bo)
+		}) {
+			return false
+		}
+		if av.nsCreator == nil {
+			return ans.Equals(bns)
+		}
+		return ans.All(func(e dgo.MapEntry) bool {
+			bo := bns.Get(e.Key())
+			return bo == nil || isDuplicate(e.Value().(dgo.Loader), bo.(dgo.Loader))
+		})
+	case *childLoader:
+		if bv, ok := b.(*childLoader); ok {
+			return isDuplicate(av.Loader, bv.Loader) && isDuplicate(av.parent, bv.parent)
+		}
+	}
+	return a.Equals(b)
+}
+
 func (l *loader) NewChild(finder dgo.Finder, nsCreator dgo.NsCreator) dgo.Loader {
 	return loaderWithParent(l, finder, nsCreator)
 }
-- 
2.43.0


From 85c587a65913ae2e95e8bc12b55e7db17e602a0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:56 +0000
Subject: [PATCH 100/126] fix: the implementation of the childLoader type is
 childLoader, not loader

---
 loader/loader.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/loader/loader.go b/loader/loader.go
index 3bbc854..811bff9 100644
--- a/loader/loader.go
+++ b/loader/loader.go
@@ -370,7 +370,7 @@ var ChildType = tf.NewNamed(`childLoader`,
 	func(v dgo.Value) dgo.Value {
 		return v.(*childLoader).initMap()
 	},
-	reflect.TypeOf(&loader{}),
+	reflect.TypeOf(&childLoader{}),
 	reflect.TypeOf((*dgo.Loader)(nil)).Elem(),
 	nil)
 
-- 
2.43.0


From 02a448a10f318a15556a4d740fbfb1287d0a461c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:45 +0000
Subject: [PATCH 101/126] fix: the cached hash code of a string must not be a
 data race

---
 internal/string.go | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/internal/string.go b/internal/string.go
index 2de3855..c7f7819 100644
--- a/internal/string.go
+++ b/internal/string.go
@@ -7,6 +7,7 @@ import (
 	"regexp"
 	"strconv"
 	"strings"
+	"sync/atomic"
 	"unicode"
 	"unicode/utf8"
 
@@ -46,7 +47,7 @@ type (
 	// hstring is a string that caches the hash value when it is computed
 	hstring struct {
 		s string
-		h int
+		h uintptr
 	}
 )
 
@@ -638,10 +639,13 @@ func (v *hstring) GoString() string {
 }
 
 func (v *hstring) HashCode() int {
-	if v.h == 0 {
-		v.h = util.StringHash(v.s)
+	// the value may be shared between go routines
+	h := atomic.LoadUintptr(&v.h)
+	if h == 0 {
+		h = uintptr(util.StringHash(v.s))
+		atomic.StoreUintptr(&v.h, h)
 	}
-	return v.h
+	return int(h)
 }
 
 func (v *hstring) ReflectTo(value reflect.Value) {
-- 
2.43.0


From c188c8a9cff6662dd0b9cc27400592f03cb9b5b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:59 +0000
Subject: [PATCH 102/126] fix: reading the default aliases must not race with
 adding aliases

---
 internal/alias.go | 42 +++++++++++++++++++++++++++++++-----------
 1 file changed, 31 insertions(+), 11 deletions(-)

diff --git a/internal/alias.go b/internal/alias.go
index 14d9aa4..4739502 100644
--- a/internal/alias.go
+++ b/internal/alias.go
@@ -3,6 +3,7 @@ package internal
 import (
 	"fmt"
 	"sync"
+	"sync/atomic"
 
 	"github.com/lyraproj/dgo/dgo"
 	"github.com/lyraproj/dgo/util"
@@ -41,18 +42,30 @@ var defaultLock = sync.Mutex{}
 // AddDefaultAliases adds the new aliases to the default alias map by passing an AliasAdder to the function
 // The function is safe from a concurrency perspective.
 func AddDefaultAliases(adder func(adder dgo.AliasAdder)) {
-	AddAliases(&defaultAliases, &defaultLock, adder)
+	am := &aliasAdder{backingMap: DefaultAliases()}
+	adder(am)
+	if am.namedTypes.Len() > 0 {
+		am.resolve()
+		defaultLock.Lock()
+		defer defaultLock.Unlock()
+		defaultAliases.Store(DefaultAliases().(*aliasMap).update(am))
+	}
 }
 
 // AddAliases will call the given adder function, and if entries were added, lock the appointed Locker, create
 // a copy of the appointed AliasMap, add the entries to that copy, swap the appointed AliasMap for the copy,
 // and finally release the lock.
 //
-// No Locker is locked and no swap will take place if the adder function doesn't add anything.
+// The Locker is also locked when the appointed AliasMap is read. It is never locked while the adder function is called,
+// and no swap will take place if that function doesn't add anything.
 func AddAliases(mapToReplace *dgo.AliasMap, lock sync.Locker, adder func(adder dgo.AliasAdder)) {
-	am := &aliasAdder{backingMap: *mapToReplace}
+	am := &aliasAdder{}
+	lock.Lock()
+	am.backingMap = *mapToReplace
+	lock.Unlock()
 	adder(am)
 	if am.namedTypes.Len() > 0 {
+		am.resolve()
 		lock.Lock()
 		defer lock.Unlock()
 		*mapToReplace = (*mapToReplace).(*aliasMap).update(am)
@@ -61,7 +74,10 @@ func AddAliases(mapToReplace *dgo.AliasMap, lock sync.Locker, adder func(adder d
 
 // DefaultAliases returns the frozen default dgo.AliasMap
 func DefaultAliases() dgo.AliasMap {
-	return defaultAliases
+	if m, ok := defaultAliases.Load().(*aliasMap); ok {
+		return m
+	}
+	return nil
 }
 
 // ResetDefaultAliases will reset the AliasMap returned by the DefaultAliases() method to the BuiltInAliases()
@@ -69,7 +85,7 @@ func DefaultAliases() dgo.AliasMap {
 //
 // This method is intended for testing purposes only
 func ResetDefaultAliases() {
-	defaultAliases = builtinAliases
+	defaultAliases.Store(builtinAliases)
 }
 
 // NewCall creates a special interim type that represents a call during parsing, and then nowhere else.
@@ -114,7 +130,7 @@ func (a *alias) TypeIdentifier() dgo.TypeIdentifier {
 }
 
 var builtinAliases dgo.AliasMap
-var defaultAliases dgo.AliasMap
+var defaultAliases atomic.Value
 
 func init() {
 	m := (&aliasMap{}).Collect(func(b dgo.AliasAdder) {
@@ -146,13 +162,14 @@ func init() {
 		b.Add(richData, richDataAlias.Reference())
 	})
 	builtinAliases = m
-	defaultAliases = m
+	defaultAliases.Store(m)
 }
 
 func (a *aliasMap) Collect(adder func(dgo.AliasAdder)) dgo.AliasMap {
 	am := &aliasAdder{backingMap: a}
 	adder(am)
 	if am.namedTypes.Len() > 0 {
+		am.resolve()
 		return a.update(am)
 	}
 	return a
@@ -165,11 +182,8 @@ func (a *aliasMap) update(am *aliasAdder) dgo.AliasMap {
 	a.namedTypes.resize(&c.namedTypes, 0)
 	a.typeNames.resize(&c.typeNames, 0)
 
-	// Resolve the added entries
-	rs := ns.Map(func(e dgo.MapEntry) interface{} { return am.Replace(e.Value()) })
-
 	// Add entries to the new alias map
-	rs.EachEntry(func(e dgo.MapEntry) {
+	ns.EachEntry(func(e dgo.MapEntry) {
 		name := e.Key().(dgo.String)
 		t := e.Value().(dgo.Type)
 		c.namedTypes.Put(name, t)
@@ -214,6 +228,12 @@ func (a *aliasAdder) Add(t dgo.Type, name dgo.String) {
 	a.namedTypes.Put(name, t)
 }
 
+// resolve resolves the added entries
+func (a *aliasAdder) resolve() {
+	rs := a.namedTypes.Map(func(e dgo.MapEntry) interface{} { return a.Replace(e.Value()) })
+	a.namedTypes.PutAll(rs)
+}
+
 func (a *aliasAdder) GetType(n dgo.String) dgo.Type {
 	if t := a.namedTypes.Get(n); t != nil {
 		return t.(dgo.Type)
-- 
2.43.0


From 1b63f9ae600cbf62453bf9dbe5d5211b44260929 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:16 +0000
Subject: [PATCH 103/126] fix: a type must not keep the name of an alias that
 has been given to another type

---
 internal/alias.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/internal/alias.go b/internal/alias.go
index 4739502..a03e2d5 100644
--- a/internal/alias.go
+++ b/internal/alias.go
@@ -186,7 +186,9 @@ func (a *aliasMap) update(am *aliasAdder) dgo.AliasMap {
 	ns.EachEntry(func(e dgo.MapEntry) {
 		name := e.Key().(dgo.String)
 		t := e.Value().(dgo.Type)
-		c.namedTypes.Put(name, t)
+		if old := c.namedTypes.Put(name, t); old != nil && name.Equals(c.typeNames.Get(old)) {
+			c.typeNames.Remove(old) // the name now denotes another type
+		}
 		c.typeNames.Put(t, name)
 	})
 	c.namedTypes.Freeze()
-- 
2.43.0


From 0f6530da21ffa045a8831d3bb23d73a531e76aec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:29 +0000
Subject: [PATCH 104/126] fix: the first uses of StructMapTypeFromMap must not
 race

---
 internal/mapstruct.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/internal/mapstruct.go b/internal/mapstruct.go
index cb9d7a3..fe91362 100644
--- a/internal/mapstruct.go
+++ b/internal/mapstruct.go
@@ -5,6 +5,7 @@ import (
 	"fmt"
 	"math"
 	"reflect"
+	"sync"
 
 	"github.com/lyraproj/dgo/dgo"
 )
@@ -76,12 +77,14 @@ func StructMapType(additional bool, entries []dgo.StructMapEntry) dgo.StructMapT
 
 var sfmType dgo.MapType
 
+var sfmTypeOnce sync.Once
+
 // StructFromMapType returns the map type used when validating the map sent to
 // StructMapTypeFromMap
 func StructFromMapType() dgo.MapType {
-	if sfmType == nil {
+	sfmTypeOnce.Do(func() {
 		sfmType = Parse(`map[string](dgo|type|{type:dgo|type,required?:bool,...})`).(dgo.MapType)
-	}
+	})
 	return sfmType
 }
 
-- 
2.43.0


From 9fcea3668cca85daaacd279e9037ca7cdb69cc38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:07 +0000
Subject: [PATCH 105/126] fix: the string of the type of a value that contains
 itself must be finite

---
 stringer/typestring.go | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/stringer/typestring.go b/stringer/typestring.go
index 12f0128..5f0416b 100644
--- a/stringer/typestring.go
+++ b/stringer/typestring.go
@@ -441,7 +441,7 @@ func (sb *typeBuilder) buildTypeString(typ dgo.Type, prio int) {
 
 	ti := typ.TypeIdentifier()
 	if f, ok := sb.complexTypes[ti]; ok {
-		if util.RecursionHit(sb.seen, typ) {
+		if sb.recursionHit(typ) {
 			util.WriteString(sb, `<recursive self reference to `)
 			util.WriteString(sb, ti.String())
 			util.WriteString(sb, ` type>`)
@@ -456,6 +456,22 @@ func (sb *typeBuilder) buildTypeString(typ dgo.Type, prio int) {
 	}
 }
 
+// recursionHit returns true if the string of the given type is being built. An exact type is recognized by its value
+// since a collection creates its type on demand.
+func (sb *typeBuilder) recursionHit(typ dgo.Type) bool {
+	if util.RecursionHit(sb.seen, typ) {
+		return true
+	}
+	if et, ok := typ.(dgo.ExactType); ok {
+		for _, s := range sb.seen {
+			if st, ok := s.(dgo.ExactType); ok && st.TypeIdentifier() == et.TypeIdentifier() && st.ExactValue() == et.ExactValue() {
+				return true
+			}
+		}
+	}
+	return false
+}
+
 func typeAsType(v dgo.Value) dgo.Type {
 	return v.(dgo.Type)
 }
-- 
2.43.0


From 041ad77a8978c7463bba6c191f47d64722fd38ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:12 +0000
Subject: [PATCH 106/126] fix: the equality and order of values that contain
 themselves must not depend on the side

---
 internal/compare.go | 28 ++++++++++++++++++++--------
 1 file changed, 20 insertions(+), 8 deletions(-)

diff --git a/internal/compare.go b/internal/compare.go
index aed6773..0b054c6 100644
--- a/internal/compare.go
+++ b/internal/compare.go
@@ -187,16 +187,28 @@ func equals(seen []dgo.Value, a dgo.Value, b interface{}) bool {
 	if !ok {
 		return a.Equals(b)
 	}
-	if util.RecursionHit(seen, a) {
-		// Recursion, so assume true
-		return true
-	}
-	db, ok := Value(b).(deepEqual)
+	bv := Value(b)
+	db, ok := bv.(deepEqual)
 	if !ok {
 		// Must be false since only one implements deepEqual
 		return false
 	}
-	return da.deepEqual(append(seen, a), db)
+	if pairHit(seen, a, bv) {
+		// Recursion, so assume true
+		return true
+	}
+	return da.deepEqual(append(seen, a, bv), db)
+}
+
+// pairHit returns true if the given seen slice, which consists of pairs of values that are being compared with each
+// other, contains the given pair.
+func pairHit(seen []dgo.Value, a, b dgo.Value) bool {
+	for i := 1; i < len(seen); i += 2 {
+		if seen[i-1] == a && seen[i] == b {
+			return true
+		}
+	}
+	return false
 }
 
 func sliceEquals(seen []dgo.Value, a, b []dgo.Value) bool {
@@ -235,9 +247,9 @@ func compare(seen []dgo.Value, a dgo.Value, b dgo.Value) (int, bool) {
 		return 0, false
 	}
 
-	if util.RecursionHit(seen, a) {
+	if pairHit(seen, a, b) {
 		// Recursion, so assume equal
 		return 0, true
 	}
-	return da.deepCompare(append(seen, a), db)
+	return da.deepCompare(append(seen, a, b), db)
 }
-- 
2.43.0


From 3c3fa763ee5dd70c5dd50ea6025ee6e45aca0390 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:13 +0000
Subject: [PATCH 107/126] fix: a copy of a value that contains itself must have
 the hash code of the original

---
 internal/array.go    | 2 +-
 internal/function.go | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/internal/array.go b/internal/array.go
index 2512166..6ca20ab 100644
--- a/internal/array.go
+++ b/internal/array.go
@@ -1120,7 +1120,7 @@ func (v *array) GoSlice() []dgo.Value {
 }
 
 func (v *array) HashCode() int {
-	return v.deepHashCode(nil)
+	return deepHashCode(nil, v)
 }
 
 func (v *array) deepHashCode(seen []dgo.Value) int {
diff --git a/internal/function.go b/internal/function.go
index 0badf57..bf62af8 100644
--- a/internal/function.go
+++ b/internal/function.go
@@ -147,7 +147,7 @@ func (t exactFunctionType) deepEqual(seen []dgo.Value, other deepEqual) bool {
 }
 
 func (t exactFunctionType) HashCode() int {
-	return t.deepHashCode(nil)
+	return deepHashCode(nil, t)
 }
 
 func (t exactFunctionType) deepHashCode(seen []dgo.Value) int {
@@ -239,7 +239,7 @@ func functionTypeEqual(seen []dgo.Value, t dgo.FunctionType, other interface{})
 }
 
 func (t *functionType) HashCode() int {
-	return t.deepHashCode(nil)
+	return deepHashCode(nil, t)
 }
 
 func (t *functionType) deepHashCode(seen []dgo.Value) int {
-- 
2.43.0


From 6d626e12e7a5f86184a25980374ae2398a79af2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:31 +0000
Subject: [PATCH 108/126] fix: the reflected type of a type that contains
 itself must be finite

---
 internal/array.go     | 18 +++++++++++++++---
 internal/compare.go   | 21 +++++++++++++++++++++
 internal/map.go       | 12 ++++++++++--
 internal/mapstruct.go |  6 +++++-
 internal/ternary.go   | 28 ++++++++++++++++++++++------
 5 files changed, 73 insertions(+), 12 deletions(-)

diff --git a/internal/array.go b/internal/array.go
index 6ca20ab..14d53fe 100644
--- a/internal/array.go
+++ b/internal/array.go
@@ -274,7 +274,11 @@ func (t *sizedArrayType) Resolve(ap dgo.AliasAdder) {
 }
 
 func (t *sizedArrayType) ReflectType() reflect.Type {
-	return reflect.SliceOf(t.elementType.ReflectType())
+	return reflectTypeOf(nil, t)
+}
+
+func (t *sizedArrayType) deepReflectType(seen []dgo.Value) reflect.Type {
+	return reflect.SliceOf(reflectTypeOf(seen, t.elementType))
 }
 
 func (t *sizedArrayType) String() string {
@@ -342,7 +346,11 @@ func (t *exactArrayType) New(arg dgo.Value) dgo.Value {
 }
 
 func (t *exactArrayType) ReflectType() reflect.Type {
-	return reflect.SliceOf(t.ElementType().ReflectType())
+	return reflectTypeOf(nil, t)
+}
+
+func (t *exactArrayType) deepReflectType(seen []dgo.Value) reflect.Type {
+	return reflect.SliceOf(reflectTypeOf(seen, t.ElementType()))
 }
 
 func (t *exactArrayType) Resolve(ap dgo.AliasAdder) {
@@ -658,7 +666,11 @@ func tupleMin(t dgo.TupleType) int {
 }
 
 func (t *tupleType) ReflectType() reflect.Type {
-	return reflect.SliceOf(t.ElementType().ReflectType())
+	return reflectTypeOf(nil, t)
+}
+
+func (t *tupleType) deepReflectType(seen []dgo.Value) reflect.Type {
+	return reflect.SliceOf(reflectTypeOf(seen, t.ElementType()))
 }
 
 func (t *tupleType) Resolve(ap dgo.AliasAdder) {
diff --git a/internal/compare.go b/internal/compare.go
index 0b054c6..81b2a0c 100644
--- a/internal/compare.go
+++ b/internal/compare.go
@@ -1,6 +1,8 @@
 package internal
 
 import (
+	"reflect"
+
 	"github.com/lyraproj/dgo/dgo"
 	"github.com/lyraproj/dgo/util"
 )
@@ -112,6 +114,25 @@ func genericOfValue(seen []dgo.Value, v dgo.Value) dgo.Type {
 	return deepGeneric(seen, v.Type())
 }
 
+// deepReflectType is implemented by types with a reflected type that is composed from the reflected types of other types.
+type deepReflectType interface {
+	deepReflectType(seen []dgo.Value) reflect.Type
+}
+
+// reflectTypeOf returns the reflected type of the given type. The reflected type of something that contains itself
+// contains the interface{} type.
+func reflectTypeOf(seen []dgo.Value, t dgo.Type) reflect.Type {
+	if dr, ok := t.(deepReflectType); ok {
+		for i := range seen {
+			if sameNode(seen[i], t) {
+				return reflectAnyType
+			}
+		}
+		return dr.deepReflectType(append(seen, t))
+	}
+	return t.ReflectType()
+}
+
 type deepCompare interface {
 	deepCompare(seen []dgo.Value, other deepCompare) (int, bool)
 }
diff --git a/internal/map.go b/internal/map.go
index af6077e..afae77b 100644
--- a/internal/map.go
+++ b/internal/map.go
@@ -1157,7 +1157,11 @@ func (t *sizedMapType) New(arg dgo.Value) dgo.Value {
 }
 
 func (t *sizedMapType) ReflectType() reflect.Type {
-	return reflect.MapOf(t.KeyType().ReflectType(), t.ValueType().ReflectType())
+	return reflectTypeOf(nil, t)
+}
+
+func (t *sizedMapType) deepReflectType(seen []dgo.Value) reflect.Type {
+	return reflect.MapOf(reflectTypeOf(seen, t.KeyType()), reflectTypeOf(seen, t.ValueType()))
 }
 
 func (t *sizedMapType) Resolve(ap dgo.AliasAdder) {
@@ -1322,7 +1326,11 @@ func (t *exactMapType) New(arg dgo.Value) dgo.Value {
 }
 
 func (t *exactMapType) ReflectType() reflect.Type {
-	return reflect.MapOf(t.KeyType().ReflectType(), t.ValueType().ReflectType())
+	return reflectTypeOf(nil, t)
+}
+
+func (t *exactMapType) deepReflectType(seen []dgo.Value) reflect.Type {
+	return reflect.MapOf(reflectTypeOf(seen, t.KeyType()), reflectTypeOf(seen, t.ValueType()))
 }
 
 func (t *exactMapType) Resolve(ap dgo.AliasAdder) {
diff --git a/internal/mapstruct.go b/internal/mapstruct.go
index fe91362..d3fda83 100644
--- a/internal/mapstruct.go
+++ b/internal/mapstruct.go
@@ -330,7 +330,11 @@ func (t *structType) New(arg dgo.Value) dgo.Value {
 }
 
 func (t *structType) ReflectType() reflect.Type {
-	return reflect.MapOf(t.KeyType().ReflectType(), t.ValueType().ReflectType())
+	return reflectTypeOf(nil, t)
+}
+
+func (t *structType) deepReflectType(seen []dgo.Value) reflect.Type {
+	return reflect.MapOf(reflectTypeOf(seen, t.KeyType()), reflectTypeOf(seen, t.ValueType()))
 }
 
 func (t *structType) Resolve(ap dgo.AliasAdder) {
diff --git a/internal/ternary.go b/internal/ternary.go
index 740a424..48729d9 100644
--- a/internal/ternary.go
+++ b/internal/ternary.go
@@ -129,7 +129,11 @@ func (t *allOfType) Operator() dgo.TypeOp {
 }
 
 func (t *allOfType) ReflectType() reflect.Type {
-	return commonReflectTo(t.slice, typeAsType)
+	return reflectTypeOf(nil, t)
+}
+
+func (t *allOfType) deepReflectType(seen []dgo.Value) reflect.Type {
+	return commonReflectTo(seen, t.slice, typeAsType)
 }
 
 func (t *allOfType) Resolve(ap dgo.AliasAdder) {
@@ -234,7 +238,11 @@ func (t *allOfValueType) Operator() dgo.TypeOp {
 }
 
 func (t *allOfValueType) ReflectType() reflect.Type {
-	return commonReflectTo(t.slice, valueAsType)
+	return reflectTypeOf(nil, t)
+}
+
+func (t *allOfValueType) deepReflectType(seen []dgo.Value) reflect.Type {
+	return commonReflectTo(seen, t.slice, valueAsType)
 }
 
 func (t *allOfValueType) String() string {
@@ -342,7 +350,11 @@ func (t *anyOfType) Operator() dgo.TypeOp {
 }
 
 func (t *anyOfType) ReflectType() reflect.Type {
-	return commonReflectTo(t.slice, typeAsType)
+	return reflectTypeOf(nil, t)
+}
+
+func (t *anyOfType) deepReflectType(seen []dgo.Value) reflect.Type {
+	return commonReflectTo(seen, t.slice, typeAsType)
 }
 
 func (t *anyOfType) Resolve(ap dgo.AliasAdder) {
@@ -458,7 +470,11 @@ func (t *oneOfType) Operator() dgo.TypeOp {
 }
 
 func (t *oneOfType) ReflectType() reflect.Type {
-	return commonReflectTo(t.slice, typeAsType)
+	return reflectTypeOf(nil, t)
+}
+
+func (t *oneOfType) deepReflectType(seen []dgo.Value) reflect.Type {
+	return commonReflectTo(seen, t.slice, typeAsType)
 }
 
 func (t *oneOfType) Resolve(ap dgo.AliasAdder) {
@@ -501,10 +517,10 @@ func commonGeneric(seen, s []dgo.Value, fc func([]dgo.Value, dgo.Value) dgo.Type
 	return prev
 }
 
-func commonReflectTo(s []dgo.Value, fc func(dgo.Value) dgo.Type) reflect.Type {
+func commonReflectTo(seen, s []dgo.Value, fc func(dgo.Value) dgo.Type) reflect.Type {
 	var prev reflect.Type
 	for i := range s {
-		rt := fc(s[i]).ReflectType()
+		rt := reflectTypeOf(seen, fc(s[i]))
 		if prev != nil {
 			if rt.AssignableTo(prev) {
 				// prev is equal or more generic
-- 
2.43.0


From b25c0b0af519a2856de2efa2a381e6ae518f7936 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:37 +0000
Subject: [PATCH 109/126] fix: an exclusive integer or float range must not
 become the unconstrained type

---
 internal/float.go   | 2 +-
 internal/integer.go | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/internal/float.go b/internal/float.go
index a7da69a..f61638c 100644
--- a/internal/float.go
+++ b/internal/float.go
@@ -48,7 +48,7 @@ func FloatType(min, max float64, inclusive bool) dgo.FloatType {
 		max = min
 		min = t
 	}
-	if min == -math.MaxFloat64 && max == math.MaxFloat64 {
+	if min == -math.MaxFloat64 && max == math.MaxFloat64 && inclusive {
 		return DefaultFloatType
 	}
 	return &floatType{min: min, max: max, inclusive: inclusive}
diff --git a/internal/integer.go b/internal/integer.go
index 081147c..2a16448 100644
--- a/internal/integer.go
+++ b/internal/integer.go
@@ -46,7 +46,7 @@ func IntegerType(min, max int64, inclusive bool) dgo.IntegerType {
 		max = min
 		min = t
 	}
-	if min == math.MinInt64 && max == math.MaxInt64 {
+	if min == math.MinInt64 && max == math.MaxInt64 && inclusive {
 		return DefaultIntegerType
 	}
 	return &integerType{min: min, max: max, inclusive: inclusive}
-- 
2.43.0


From cad952b6acb7061ca2017158fc97a88c0b9d1929 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:44 +0000
Subject: [PATCH 110/126] fix: the size of a string or binary type must not be
 negative

---
 internal/binary.go | 3 +++
 internal/string.go | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/internal/binary.go b/internal/binary.go
index 0458a51..8b0e22a 100644
--- a/internal/binary.go
+++ b/internal/binary.go
@@ -62,6 +62,9 @@ func SizedBinaryType(min, max int) dgo.BinaryType {
 	if min < 0 {
 		min = 0
 	}
+	if max < 0 {
+		max = 0
+	}
 	if max < min {
 		tmp := max
 		max = min
diff --git a/internal/string.go b/internal/string.go
index c7f7819..e2b1e04 100644
--- a/internal/string.go
+++ b/internal/string.go
@@ -495,6 +495,9 @@ func SizedStringType(min, max int) dgo.StringType {
 	if min < 0 {
 		min = 0
 	}
+	if max < 0 {
+		max = 0
+	}
 	if max < min {
 		tmp := max
 		max = min
-- 
2.43.0


From 51e6cb99bc849d7497287de895d3ead8a0735d38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:52 +0000
Subject: [PATCH 111/126] fix: CiString, Tuple, and VariadicTuple must panic
 with a descriptive error when given an illegal argument

---
 internal/array.go  | 5 ++++-
 internal/string.go | 9 ++++++---
 2 files changed, 10 insertions(+), 4 deletions(-)

diff --git a/internal/array.go b/internal/array.go
index 14d53fe..3c81088 100644
--- a/internal/array.go
+++ b/internal/array.go
@@ -406,7 +406,10 @@ func newTupleType(types []interface{}, variadic bool) dgo.TupleType {
 	exact := !variadic
 	es := make([]dgo.Value, l)
 	for i := 0; i < l; i++ {
-		et := types[i].(dgo.Type)
+		et, ok := types[i].(dgo.Type)
+		if !ok {
+			panic(illegalArgument(`Tuple`, `Type`, types, i))
+		}
 		if exact && !dgo.IsExact(et) {
 			exact = false
 		}
diff --git a/internal/string.go b/internal/string.go
index e2b1e04..3fa164c 100644
--- a/internal/string.go
+++ b/internal/string.go
@@ -293,10 +293,13 @@ func (t *exactStringType) ExactValue() dgo.Value {
 // Unicode case-folding.
 func CiStringType(si interface{}) dgo.StringType {
 	var s string
-	if ov, ok := si.(*hstring); ok {
+	switch ov := si.(type) {
+	case *hstring:
 		s = ov.s
-	} else {
-		s = si.(string)
+	case string:
+		s = ov
+	default:
+		panic(illegalArgument(`CiString`, `String`, []interface{}{si}, 0))
 	}
 	et := &ciStringType{exactStringType: exactStringType{value: makeHString(strings.Map(foldedLower, s))}}
 	et.ExactType = et
-- 
2.43.0


From 93dbb1cda4db4c796990c4b1a8505c8ca563285d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:55 +0000
Subject: [PATCH 112/126] fix: a wrapped Go error must not equal other kinds of
 errors that do not equal it

---
 internal/error.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/internal/error.go b/internal/error.go
index d822359..cfbbc66 100644
--- a/internal/error.go
+++ b/internal/error.go
@@ -90,6 +90,9 @@ func (e *errw) Equals(other interface{}) bool {
 	if oe, ok := other.(*errw); ok {
 		return e.error.Error() == oe.error.Error()
 	}
+	if _, ok := other.(dgo.Value); ok {
+		return false // another kind of value, even if it is an error too
+	}
 	if oe, ok := other.(error); ok {
 		return e.error.Error() == oe.Error()
 	}
-- 
2.43.0


From 182a41794977abea8f0e8e003c9140548efd4f66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:08 +0000
Subject: [PATCH 113/126] fix: enclose the text of an exact named type that is
 an operand or an element

---
 stringer/typestring.go | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/stringer/typestring.go b/stringer/typestring.go
index 5f0416b..39270d4 100644
--- a/stringer/typestring.go
+++ b/stringer/typestring.go
@@ -98,6 +98,15 @@ func (sb *typeBuilder) exactValue(typ dgo.Type, _ int) {
 	util.WriteString(sb, typ.(dgo.ExactType).ExactValue().String())
 }
 
+func (sb *typeBuilder) namedExact(typ dgo.Type, prio int) {
+	// the text is the name followed by an argument, so it must be enclosed when it is an operand or an element
+	if prio > commaPrio {
+		util.WriteByte(sb, '(')
+		defer util.WriteByte(sb, ')')
+	}
+	sb.exactValue(typ, prio)
+}
+
 func (sb *typeBuilder) tuple(typ dgo.Type, _ int) {
 	sb.writeTupleArgs(typ.(dgo.TupleType), '{', '}')
 }
@@ -323,7 +332,7 @@ func newTypeBuilder(w io.Writer, am dgo.AliasMap) *typeBuilder {
 		dgo.TiFunction:      sb.function,
 		dgo.TiErrorExact:    sb.errorExact,
 		dgo.TiNamed:         sb.named,
-		dgo.TiNamedExact:    sb.exactValue,
+		dgo.TiNamedExact:    sb.namedExact,
 	}
 	return sb
 }
-- 
2.43.0


From eaccef3df2be6342a804f8cb9947ad4f8345ce4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:35 +0000
Subject: [PATCH 114/126] fix: limits of a pcore Number that are not integers
 must not be truncated

---
 streamer/pcore/parser.go | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/streamer/pcore/parser.go b/streamer/pcore/parser.go
index 641c649..feabd40 100644
--- a/streamer/pcore/parser.go
+++ b/streamer/pcore/parser.go
@@ -443,11 +443,20 @@ func integerType(p *pcoreParser) dgo.Value {
 
 func numberType(p *pcoreParser) dgo.Value {
 	tp := floatType(p).(dgo.FloatType)
-	max := int64(math.MaxInt64)
-	if tp.Max() != math.MaxFloat64 {
-		max = int64(tp.Max())
+	min := math.Ceil(tp.Min())
+	max := math.Floor(tp.Max())
+	if min > max || min >= 1<<63 || max < -1<<63 {
+		// no integer is within the limits
+		return tp
+	}
+	from, to := int64(math.MinInt64), int64(math.MaxInt64)
+	if min > -1<<63 {
+		from = int64(min)
+	}
+	if max < 1<<63 {
+		to = int64(max)
 	}
-	return tf.AnyOf(tf.Integer(int64(tp.Min()), max, true), tp)
+	return tf.AnyOf(tf.Integer(from, to, true), tp)
 }
 
 func notUndefType(p *pcoreParser) dgo.Value {
-- 
2.43.0


From cc9b7d73a584346910120d2d5a24c31eed46dd21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:39 +0000
Subject: [PATCH 115/126] fix: columns after the first line must not be off by
 one

---
 util/reader.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/util/reader.go b/util/reader.go
index 9b555b5..4276264 100644
--- a/util/reader.go
+++ b/util/reader.go
@@ -38,8 +38,9 @@ func (r *StringReader) Next() rune {
 		if c == '\n' {
 			r.l++
 			r.c = 0
+		} else {
+			r.c++
 		}
-		r.c++
 	} else {
 		var size int
 		c, size = utf8.DecodeRuneInString(r.s[r.p:])
-- 
2.43.0


From d3512349202bd77894fbda59ac02d6ab3552db1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:54 +0000
Subject: [PATCH 116/126] fix: a loader created from a map must not share that
 map

---
 loader/loader.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/loader/loader.go b/loader/loader.go
index 811bff9..87e9192 100644
--- a/loader/loader.go
+++ b/loader/loader.go
@@ -94,7 +94,7 @@ var Type = tf.NewNamed(`mapLoader`,
 
 func (l *mapLoader) init(im dgo.Map) {
 	l.name = im.Get(`name`).(dgo.String).GoString()
-	l.entries = im.Get(`entries`).(dgo.Map)
+	l.entries = im.Get(`entries`).(dgo.Map).FrozenCopy().(dgo.Map)
 }
 
 func (l *mapLoader) initMap() dgo.Map {
@@ -176,7 +176,8 @@ var MutableType = tf.NewNamed(`loader`,
 
 func (l *loader) init(im dgo.Map) {
 	l.mapLoader.init(im)
-	l.namespaces = im.Get(`namespaces`).(dgo.Map)
+	// the given map must not be shared
+	l.namespaces = shallowCopy(im.Get(`namespaces`).(dgo.Map))
 }
 
 func (l *loader) initMap() dgo.Map {
-- 
2.43.0


From 8b773a0c11f966ae911e955e050acfecef876912 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:54 +0000
Subject: [PATCH 117/126] fix: the reflected type of a map type with unhashable
 keys or additional entries

---
 internal/map.go       | 13 +++++++++++--
 internal/mapstruct.go |  6 +++++-
 2 files changed, 16 insertions(+), 3 deletions(-)

diff --git a/internal/map.go b/internal/map.go
index afae77b..07ccc5b 100644
--- a/internal/map.go
+++ b/internal/map.go
@@ -1160,8 +1160,17 @@ func (t *sizedMapType) ReflectType() reflect.Type {
 	return reflectTypeOf(nil, t)
 }
 
+// reflectMapOf returns the reflected type for maps with the given types of keys and values. A type of keys that isn't
+// permitted in a Go map is replaced with the type that permits anything.
+func reflectMapOf(keyType, valueType reflect.Type) reflect.Type {
+	if !keyType.Comparable() {
+		keyType = reflectAnyType
+	}
+	return reflect.MapOf(keyType, valueType)
+}
+
 func (t *sizedMapType) deepReflectType(seen []dgo.Value) reflect.Type {
-	return reflect.MapOf(reflectTypeOf(seen, t.KeyType()), reflectTypeOf(seen, t.ValueType()))
+	return reflectMapOf(reflectTypeOf(seen, t.KeyType()), reflectTypeOf(seen, t.ValueType()))
 }
 
 func (t *sizedMapType) Resolve(ap dgo.AliasAdder) {
@@ -1330,7 +1339,7 @@ func (t *exactMapType) ReflectType() reflect.Type {
 }
 
 func (t *exactMapType) deepReflectType(seen []dgo.Value) reflect.Type {
-	return reflect.MapOf(reflectTypeOf(seen, t.KeyType()), reflectTypeOf(seen, t.ValueType()))
+	return reflectMapOf(reflectTypeOf(seen, t.KeyType()), reflectTypeOf(seen, t.ValueType()))
 }
 
 func (t *exactMapType) Resolve(ap dgo.AliasAdder) {
diff --git a/internal/mapstruct.go b/internal/mapstruct.go
index d3fda83..87bc255 100644
--- a/internal/mapstruct.go
+++ b/internal/mapstruct.go
@@ -334,7 +334,11 @@ func (t *structType) ReflectType() reflect.Type {
 }
 
 func (t *structType) deepReflectType(seen []dgo.Value) reflect.Type {
-	return reflect.MapOf(reflectTypeOf(seen, t.KeyType()), reflectTypeOf(seen, t.ValueType()))
+	if t.additional {
+		// additional keys and values can be anything
+		return reflect.MapOf(reflectAnyType, reflectAnyType)
+	}
+	return reflectMapOf(reflectTypeOf(seen, t.KeyType()), reflectTypeOf(seen, t.ValueType()))
 }
 
 func (t *structType) Resolve(ap dgo.AliasAdder) {
-- 
2.43.0


From 5eef1b8d20119f3895e6792d095dff428e9d431b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:59 +0000
Subject: [PATCH 118/126] fix: the type of a Go byte slice is binary

---
 internal/value.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/internal/value.go b/internal/value.go
index 6a92ab9..29aa5f6 100644
--- a/internal/value.go
+++ b/internal/value.go
@@ -192,6 +192,7 @@ func reflectToPtr(src dgo.Value, dest reflect.Value) {
 
 // Add well known types like regexp, time, etc. here
 var wellKnownTypes = map[reflect.Type]dgo.Type{
+	reflect.TypeOf([]byte{}):         DefaultBinaryType,
 	reflect.TypeOf(&regexp.Regexp{}): DefaultRegexpType,
 	reflect.TypeOf(time.Time{}):      DefaultTimeType,
 }
-- 
2.43.0


From 3ebffa0bad4540c45c835a3ac5d30ef766950f0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:05 +0000
Subject: [PATCH 119/126] fix: FromValue panics with an error when the
 destination isn't a pointer

---
 internal/value.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/internal/value.go b/internal/value.go
index 29aa5f6..39e8b78 100644
--- a/internal/value.go
+++ b/internal/value.go
@@ -2,6 +2,7 @@ package internal
 
 import (
 	"encoding/json"
+	"errors"
 	"fmt"
 	"reflect"
 	"regexp"
@@ -158,7 +159,7 @@ func ValueFromReflected(vr reflect.Value) dgo.Value {
 func FromValue(src dgo.Value, dest interface{}) {
 	dp := reflect.ValueOf(dest)
 	if reflect.Ptr != dp.Kind() {
-		panic("destination is not a pointer")
+		panic(errors.New("destination is not a pointer"))
 	}
 	ReflectTo(src, dp.Elem())
 }
-- 
2.43.0


From a677dc28e52f36d7da87dc9db8930e0f934c25a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:10 +0000
Subject: [PATCH 120/126] fix: the intersection of exact values is assignable
 as other intersections are

---
 internal/disjoint.go |  2 ++
 internal/not.go      |  8 ++++++++
 internal/ternary.go  | 11 ++++++++++-
 3 files changed, 20 insertions(+), 1 deletion(-)

diff --git a/internal/disjoint.go b/internal/disjoint.go
index e2df4b3..e57bbb9 100644
--- a/internal/disjoint.go
+++ b/internal/disjoint.go
@@ -51,6 +51,8 @@ func disjointConstraint(guard dgo.RecursionGuard, a, b dgo.Type) bool {
 		return Assignable(guard, a.negated, b)
 	case *allOfType:
 		return disjointCount(guard, a.slice, b) > 0
+	case *allOfValueType:
+		return disjointCount(guard, a.operandTypes(), b) > 0
 	case *integerType:
 		if b, ok := b.(*integerType); ok {
 			return a.max < b.min || a.max == b.min && !a.inclusive
diff --git a/internal/not.go b/internal/not.go
index 568db0b..5918791 100644
--- a/internal/not.go
+++ b/internal/not.go
@@ -66,6 +66,14 @@ func (t *notType) DeepAssignable(guard dgo.RecursionGuard, other dgo.Type) bool
 			}
 		}
 		return len(ts) > 0 || Assignable(guard, t, DefaultAnyType)
+	case *allOfValueType:
+		ts := ot.operandTypes()
+		for i := range ts {
+			if !Assignable(guard, t, ts[i].(dgo.Type)) {
+				return false
+			}
+		}
+		return true
 	case *oneOfType:
 		f := false
 		ts := ot.slice
diff --git a/internal/ternary.go b/internal/ternary.go
index 48729d9..10e35d2 100644
--- a/internal/ternary.go
+++ b/internal/ternary.go
@@ -168,12 +168,21 @@ func (t *allOfValueType) DeepAssignable(guard dgo.RecursionGuard, other dgo.Type
 	}
 	for i := range ts {
 		if !Assignable(guard, ts[i].Type(), other) {
-			return false
+			return CheckAssignableTo(guard, other, t)
 		}
 	}
 	return true
 }
 
+// operandTypes returns a slice with the types of the contained values.
+func (t *allOfValueType) operandTypes() []dgo.Value {
+	ts := make([]dgo.Value, len(t.slice))
+	for i := range ts {
+		ts[i] = t.slice[i].Type()
+	}
+	return ts
+}
+
 // AssignableTo returns true if the other type is assignable from all of the contained types.
 func (t *allOfValueType) AssignableTo(guard dgo.RecursionGuard, other dgo.Type) bool {
 	ts := t.slice
-- 
2.43.0


From 7a58977d56e72677f575551bcd69ef1e4955e535 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:05 +0000
Subject: [PATCH 121/126] fix: a Go map with NaN keys loses its values when
 converted

---
 internal/map.go | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/internal/map.go b/internal/map.go
index 07ccc5b..9eae3ae 100644
--- a/internal/map.go
+++ b/internal/map.go
@@ -283,8 +283,7 @@ func FromReflectedMap(rm reflect.Value, frozen bool) dgo.Value {
 	if rm.IsNil() {
 		return Nil
 	}
-	keys := rm.MapKeys()
-	top := len(keys)
+	top := rm.Len()
 	ic := top
 	if top == 0 {
 		if frozen {
@@ -294,14 +293,13 @@ func FromReflectedMap(rm reflect.Value, frozen bool) dgo.Value {
 	}
 	tbl := make([]*hashNode, tableSizeFor(int(float64(ic)/loadFactor)))
 	hl := len(tbl) - 1
-	se := make([][2]dgo.Value, len(keys))
-	for i := range keys {
-		key := keys[i]
-		val := ValueFromReflected(rm.MapIndex(key))
+	se := make([][2]dgo.Value, 0, top)
+	for it := rm.MapRange(); it.Next(); {
+		val := ValueFromReflected(it.Value())
 		if frozen {
 			val = frozenCopy(val)
 		}
-		se[i] = [2]dgo.Value{frozenCopy(ValueFromReflected(key)), val}
+		se = append(se, [2]dgo.Value{frozenCopy(ValueFromReflected(it.Key())), val})
 	}
 
 	// Sort by key to always get predictable order
-- 
2.43.0


From fe7cf6953bbf403163ee0b6a9e5858ab71eb8f00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:10 +0000
Subject: [PATCH 122/126] fix: a Go map with keys of different kinds is
 converted in a predictable order

---
 internal/map.go | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/internal/map.go b/internal/map.go
index 9eae3ae..9eb5db0 100644
--- a/internal/map.go
+++ b/internal/map.go
@@ -304,14 +304,14 @@ func FromReflectedMap(rm reflect.Value, frozen bool) dgo.Value {
 
 	// Sort by key to always get predictable order
 	sort.Slice(se, func(i, j int) bool {
-		less := false
-		if cm, ok := se[i][0].(dgo.Comparable); ok {
+		a, b := se[i][0], se[j][0]
+		if cm, ok := a.(dgo.Comparable); ok {
 			var c int
-			if c, ok = cm.CompareTo(se[j][0]); ok {
-				less = c < 0
+			if c, ok = cm.CompareTo(b); ok {
+				return c < 0
 			}
 		}
-		return less
+		return a.Type().TypeIdentifier() < b.Type().TypeIdentifier()
 	})
 
 	m := &hashMap{table: tbl, len: top, frozen: frozen}
-- 
2.43.0


From 9a89fea5b9d291524444b445ad30b7fe4079d4c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:15 +0000
Subject: [PATCH 123/126] fix: a Go map with keys that become equal must not be
 converted to a map with duplicate keys

---
 internal/map.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/internal/map.go b/internal/map.go
index 9eb5db0..eaf89f3 100644
--- a/internal/map.go
+++ b/internal/map.go
@@ -319,6 +319,11 @@ func FromReflectedMap(rm reflect.Value, frozen bool) dgo.Value {
 		e := se[i]
 		k := e[0]
 		hk := hl & hash(k.HashCode())
+		for p := tbl[hk]; p != nil; p = p.hashNext {
+			if k.Equals(p.key) {
+				panic(fmt.Errorf(`unable to create map from %s: different keys become equal`, rm.Type()))
+			}
+		}
 		hn := &hashNode{mapEntry: mapEntry{key: k, value: e[1]}, hashNext: tbl[hk], prev: m.last}
 		if m.last == nil {
 			m.first = hn
-- 
2.43.0


From 12493d6842e4853399d5d4ba4febe581ca8d04f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:27 +0000
Subject: [PATCH 124/126] fix: the seconds of a time far from the epoch must
 not overflow

---
 internal/time.go | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/internal/time.go b/internal/time.go
index dee62ab..29654ab 100644
--- a/internal/time.go
+++ b/internal/time.go
@@ -154,8 +154,7 @@ func (v *timeVal) SecondsWithFraction() float64 {
 		return float64(t.UnixNano()) / 1000000000.0
 	}
 	// Fall back to microsecond precision
-	us := t.Unix()*1000000 + int64(t.Nanosecond())/1000
-	return float64(us) / 1000000.0
+	return float64(t.Unix()) + float64(t.Nanosecond()/1000)/1000000.0
 }
 
 func (v *timeVal) GoTime() time.Time {
-- 
2.43.0


From 451b5424742212373921da86f3ecfa5d5725d6b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:59 +0000
Subject: [PATCH 125/126] fix: the instance check of a sensitive type must
 guard against endless recursion

---
 internal/sensitive.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/internal/sensitive.go b/internal/sensitive.go
index 0f1ab6e..405f079 100644
--- a/internal/sensitive.go
+++ b/internal/sensitive.go
@@ -66,8 +66,12 @@ func (t *sensitiveType) deepHashCode(seen []dgo.Value) int {
 }
 
 func (t *sensitiveType) Instance(value interface{}) bool {
+	return Instance(nil, t, value)
+}
+
+func (t *sensitiveType) DeepInstance(guard dgo.RecursionGuard, value interface{}) bool {
 	if ov, ok := value.(*sensitive); ok {
-		return t.wrapped.Instance(ov.Unwrap())
+		return Instance(guard, t.wrapped, ov.Unwrap())
 	}
 	return false
 }
-- 
2.43.0


From e5041cefc2d9f2c75fe637a161174b52628ea106 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:47:02 +0000
Subject: [PATCH 126/126] fix: only a recursive type accepts itself as a value
 within a collection

---
 internal/compare.go | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/internal/compare.go b/internal/compare.go
index 81b2a0c..6d26173 100644
--- a/internal/compare.go
+++ b/internal/compare.go
@@ -43,6 +43,17 @@ func (s *doubleSeen) Swap() dgo.RecursionGuard {
 	return c
 }
 
+// isChecked returns true if a check of the type a is in progress.
+func isChecked(guard dgo.RecursionGuard, a dgo.Value) bool {
+	s, _ := guard.(*doubleSeen)
+	for ; s != nil; s = s.parent {
+		if s.a == a {
+			return true
+		}
+	}
+	return false
+}
+
 // sameNode returns true if a and b are the same instance or the exact types of the same instance. The latter must be
 // included since a collection creates its type on demand.
 func sameNode(a, b dgo.Value) bool {
@@ -175,8 +186,9 @@ func Instance(guard dgo.RecursionGuard, a dgo.Type, b interface{}) bool {
 		if guard == nil {
 			guard = &doubleSeen{a: a, b: bv}
 		} else {
+			recursive := a == bv && isChecked(guard, a)
 			guard = guard.Append(a, bv)
-			if guard.Hit() || a == bv { // a collection that is an instance of a type may hold that type
+			if guard.Hit() || recursive { // a collection that is an instance of a recursive type may hold that type
 				return true
 			}
 		}
-- 
2.43.0

