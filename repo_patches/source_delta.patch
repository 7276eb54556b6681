From 9aa140b81ed26f14ed0e23465db11e9d7d59f51e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:40 +0000
Subject: [PATCH 01/23] fix: order NaN consistently so that NaN values can be
 stored, found and retracted

---
 internal/database/snapshot.go |  9 ++++++++-
 internal/index/compare.go     | 22 ++++++++--------------
 2 files changed, 16 insertions(+), 15 deletions(-)

diff --git a/internal/database/snapshot.go b/internal/database/snapshot.go
index 224227d..9beb118 100644
--- a/internal/database/snapshot.go
+++ b/internal/database/snapshot.go
@@ -1,6 +1,7 @@
 package database
 
 import (
+	"cmp"
 	"iter"
 	"time"
 
@@ -123,13 +124,19 @@ func filterByV(seq iter.Seq[Datum], v Value) iter.Seq[Datum] {
 
 // valuesEqual compares two values with the same instant semantics the indexes use:
 // Inst values are equal when they denote the same millisecond, matching how they are
-// stored and compared in the int tree. All other value types compare by ==.
+// stored and compared in the int tree. Float values are equal when the indexes order
+// neither before the other, so NaN equals itself. All other value types compare by ==.
 func valuesEqual(a Value, b Value) bool {
 	ai, aok := a.(Inst)
 	bi, bok := b.(Inst)
 	if aok && bok {
 		return time.Time(ai).UnixMilli() == time.Time(bi).UnixMilli()
 	}
+	af, aok := a.(Float)
+	bf, bok := b.(Float)
+	if aok && bok {
+		return cmp.Compare(af, bf) == 0
+	}
 	return a == b
 }
 
diff --git a/internal/index/compare.go b/internal/index/compare.go
index fa853b0..9928fd6 100644
--- a/internal/index/compare.go
+++ b/internal/index/compare.go
@@ -15,7 +15,7 @@ func LessEAV[X cmp.Ordered](d1 TypedDatum[X], d2 TypedDatum[X]) (less bool) {
 	case d1.A > d2.A:
 		less = false
 	default:
-		less = d1.V < d2.V
+		less = cmp.Less(d1.V, d2.V)
 	}
 	return
 }
@@ -26,9 +26,9 @@ func LessAVE[X cmp.Ordered](d1 TypedDatum[X], d2 TypedDatum[X]) (less bool) {
 		less = true
 	case d1.A > d2.A:
 		less = false
-	case d1.V < d2.V:
+	case cmp.Less(d1.V, d2.V):
 		less = true
-	case d1.V > d2.V:
+	case cmp.Less(d2.V, d1.V):
 		less = false
 	default:
 		less = d1.E < d2.E
@@ -47,16 +47,16 @@ func LessAEV[X cmp.Ordered](d1 TypedDatum[X], d2 TypedDatum[X]) (less bool) {
 	case d1.E > d2.E:
 		less = false
 	default:
-		less = d1.V < d2.V
+		less = cmp.Less(d1.V, d2.V)
 	}
 	return
 }
 
 func LessVAE[X cmp.Ordered](d1 TypedDatum[X], d2 TypedDatum[X]) (less bool) {
 	switch {
-	case d1.V < d2.V:
+	case cmp.Less(d1.V, d2.V):
 		less = true
-	case d1.V > d2.V:
+	case cmp.Less(d2.V, d1.V):
 		less = false
 	case d1.A < d2.A:
 		less = true
@@ -143,14 +143,8 @@ func CompareAVE[X cmp.Ordered](d1 TypedDatum[X], d2 TypedDatum[X]) (diff int) {
 }
 
 func CompareV[X cmp.Ordered](d1 TypedDatum[X], d2 TypedDatum[X]) (diff int) {
-	switch {
-	case d1.V < d2.V:
-		diff = -1
-	case d1.V > d2.V:
-		diff = 1
-	default:
-		diff = 0
-	}
+	// NaN is a value like any other here: it equals itself and precedes all other floats.
+	diff = cmp.Compare(d1.V, d2.V)
 	return
 }
 
-- 
2.43.0


From 2c473dc1323c15f1aadd773d50f5575b85150c45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:52 +0000
Subject: [PATCH 02/23] fix: find negative floats when selecting, counting or
 replacing by attribute

---
 internal/index/index.go | 21 ++++++++++++---------
 1 file changed, 12 insertions(+), 9 deletions(-)

diff --git a/internal/index/index.go b/internal/index/index.go
index b202605..2ee5972 100644
--- a/internal/index/index.go
+++ b/internal/index/index.go
@@ -111,6 +111,9 @@ func NewCompositeIndex(degree int, indexType IndexType, attrTypes map[ID]ID) (co
 	return
 }
 
+// minFloat is the least float in the index order, in which NaN precedes every other value.
+var minFloat = math.NaN()
+
 var stringValuer TypeValuer[string] = TypeValuer[string]{
 	valuer:   func(v string) (value Value) { return String(v) },
 	devaluer: func(value Value) (v string) { return string(value.(String)) },
@@ -310,11 +313,11 @@ func (idx *CompositeIndex) Select(p PartialIndex, datum Datum) (seq iter.Seq[Dat
 	case sys.AttrTypeFloat:
 		switch p {
 		case EA:
-			seq = idx.floats.Select(CompareEA[float64], floatValuer.valuer, TypedDatum[float64]{E: datum.E, A: datum.A})
+			seq = idx.floats.Select(CompareEA[float64], floatValuer.valuer, TypedDatum[float64]{E: datum.E, A: datum.A, V: minFloat})
 		case AE:
-			seq = idx.floats.Select(CompareAE[float64], floatValuer.valuer, TypedDatum[float64]{E: datum.E, A: datum.A})
+			seq = idx.floats.Select(CompareAE[float64], floatValuer.valuer, TypedDatum[float64]{E: datum.E, A: datum.A, V: minFloat})
 		case A:
-			seq = idx.floats.Select(CompareA[float64], floatValuer.valuer, TypedDatum[float64]{A: datum.A})
+			seq = idx.floats.Select(CompareA[float64], floatValuer.valuer, TypedDatum[float64]{A: datum.A, V: minFloat})
 		case AV:
 			seq = idx.floats.Select(CompareAV[float64], floatValuer.valuer, TypedDatum[float64]{A: datum.A, V: floatValuer.devaluer(datum.V)})
 		}
@@ -391,11 +394,11 @@ func (idx *CompositeIndex) First(p PartialIndex, datum Datum) (match Datum, exta
 	case sys.AttrTypeFloat:
 		switch p {
 		case EA:
-			match, extant = idx.floats.First(CompareEA[float64], floatValuer.valuer, TypedDatum[float64]{E: datum.E, A: datum.A})
+			match, extant = idx.floats.First(CompareEA[float64], floatValuer.valuer, TypedDatum[float64]{E: datum.E, A: datum.A, V: minFloat})
 		case AE:
-			match, extant = idx.floats.First(CompareAE[float64], floatValuer.valuer, TypedDatum[float64]{E: datum.E, A: datum.A})
+			match, extant = idx.floats.First(CompareAE[float64], floatValuer.valuer, TypedDatum[float64]{E: datum.E, A: datum.A, V: minFloat})
 		case A:
-			match, extant = idx.floats.First(CompareA[float64], floatValuer.valuer, TypedDatum[float64]{A: datum.A})
+			match, extant = idx.floats.First(CompareA[float64], floatValuer.valuer, TypedDatum[float64]{A: datum.A, V: minFloat})
 		case AV:
 			match, extant = idx.floats.First(CompareAV[float64], floatValuer.valuer, TypedDatum[float64]{A: datum.A, V: floatValuer.devaluer(datum.V)})
 		}
@@ -471,11 +474,11 @@ func (idx *CompositeIndex) Count(p PartialIndex, datum Datum) (count int) {
 	case sys.AttrTypeFloat:
 		switch p {
 		case EA:
-			count = idx.floats.Count(CompareEA[float64], TypedDatum[float64]{E: datum.E, A: datum.A})
+			count = idx.floats.Count(CompareEA[float64], TypedDatum[float64]{E: datum.E, A: datum.A, V: minFloat})
 		case AE:
-			count = idx.floats.Count(CompareAE[float64], TypedDatum[float64]{E: datum.E, A: datum.A})
+			count = idx.floats.Count(CompareAE[float64], TypedDatum[float64]{E: datum.E, A: datum.A, V: minFloat})
 		case A:
-			count = idx.floats.Count(CompareA[float64], TypedDatum[float64]{A: datum.A})
+			count = idx.floats.Count(CompareA[float64], TypedDatum[float64]{A: datum.A, V: minFloat})
 		case AV:
 			count = idx.floats.Count(CompareAV[float64], TypedDatum[float64]{A: datum.A, V: floatValuer.devaluer(datum.V)})
 		}
-- 
2.43.0


From dd3268b6a9fc39ccab778362ca756c348a0ffd9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:14 +0000
Subject: [PATCH 03/23] fix: exclude concurrent reads while they clone the
 indexes

---
 internal/database/database.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/internal/database/database.go b/internal/database/database.go
index ac22379..9997944 100644
--- a/internal/database/database.go
+++ b/internal/database/database.go
@@ -23,7 +23,7 @@ type indexDatabase struct {
 	attrCardManies map[ID]Void
 	idents         map[Ident]ID
 
-	lock   sync.RWMutex
+	lock   sync.Mutex
 	logger log.Logger
 	nextID ID
 }
@@ -79,8 +79,9 @@ func NewIndexDatabase(degree int, attrsSize int, identsSize int) (db Database) {
 }
 
 func (db *indexDatabase) Read() (snapshot Snapshot) {
-	db.lock.RLock()
-	defer db.lock.RUnlock()
+	// Cloning a btree changes the original as well as the clone, so readers exclude one another.
+	db.lock.Lock()
+	defer db.lock.Unlock()
 	snapshot = db.read()
 	return
 }
-- 
2.43.0


From 99c45567596024fe3a65000370a017877e4ded72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:16 +0000
Subject: [PATCH 04/23] fix: declare attributes without changing the types old
 snapshots are reading

---
 internal/database/database.go | 11 ++++++++++-
 internal/index/index.go       |  7 +++++++
 2 files changed, 17 insertions(+), 1 deletion(-)

diff --git a/internal/database/database.go b/internal/database/database.go
index 9997944..246dec0 100644
--- a/internal/database/database.go
+++ b/internal/database/database.go
@@ -347,11 +347,20 @@ CLAIMS:
 		for id, ident := range identCreates {
 			db.idents[ident] = id
 		}
+		if len(attrChanges) != 0 {
+			// Snapshots read the extant map through their indexes, so we must not change it.
+			db.attrTypes = maps.Clone(db.attrTypes)
+			for id, attr := range attrChanges {
+				db.attrTypes[id] = attr.Type
+			}
+			db.eav.Retype(db.attrTypes)
+			db.aev.Retype(db.attrTypes)
+			db.ave.Retype(db.attrTypes)
+		}
 		for id, attr := range attrChanges {
 			db.idents[attr.Ident] = id
 			db.attrsByID[id] = attr
 			db.attrsByIdent[attr.Ident] = attr
-			db.attrTypes[id] = attr.Type
 			if attr.Cardinality == sys.AttrCardinalityMany {
 				db.attrCardManies[id] = Void{}
 			}
diff --git a/internal/index/index.go b/internal/index/index.go
index 2ee5972..01ee258 100644
--- a/internal/index/index.go
+++ b/internal/index/index.go
@@ -84,6 +84,9 @@ type Index interface {
 	// Clone returns a copy of the index. Both instances are hereafter safe to change without affecting
 	// the other.
 	Clone() (clone Index)
+	// Retype replaces the attribute types by which the index stores and recovers values. Clones
+	// share a map of attribute types, so it must not change once it has been given to an index.
+	Retype(attrTypes map[ID]ID)
 }
 
 // CompositeIndex is an index of indexes of the discrete types.
@@ -508,6 +511,10 @@ func (idx *CompositeIndex) Count(p PartialIndex, datum Datum) (count int) {
 	return
 }
 
+func (idx *CompositeIndex) Retype(attrTypes map[ID]ID) {
+	idx.attrTypes = attrTypes
+}
+
 func (idx *CompositeIndex) Clone() (clone Index) {
 	clone = &CompositeIndex{
 		attrTypes: idx.attrTypes,
-- 
2.43.0


From b7e5754c11d12fa6fa364dcb498ad025f7dc8ce9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:56 +0000
Subject: [PATCH 05/23] fix: select an empty sequence, not a nil one, for ids
 that are not attributes

---
 internal/index/index.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/internal/index/index.go b/internal/index/index.go
index 01ee258..e5b77c6 100644
--- a/internal/index/index.go
+++ b/internal/index/index.go
@@ -279,6 +279,7 @@ func (idx *CompositeIndex) Select(p PartialIndex, datum Datum) (seq iter.Seq[Dat
 		seq = mergeEAV(strings, mapSeq(ints, idx.reint), mapSeq(uints, idx.reuint), floats)
 		return
 	}
+	seq = func(yield func(Datum) bool) {}
 	switch idx.attrTypes[datum.A] {
 	case sys.AttrTypeString:
 		switch p {
-- 
2.43.0


From 61d1c44895dd921db35985b9dcd8f2f6177b3118 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:56 +0000
Subject: [PATCH 06/23] fix: match nothing for query claims whose references or
 values cannot match

---
 internal/database/snapshot.go | 80 +++++++++++++++++++++++------------
 1 file changed, 53 insertions(+), 27 deletions(-)

diff --git a/internal/database/snapshot.go b/internal/database/snapshot.go
index 9beb118..01b36bb 100644
--- a/internal/database/snapshot.go
+++ b/internal/database/snapshot.go
@@ -6,6 +6,7 @@ import (
 	"time"
 
 	"github.com/dball/destructive/internal/index"
+	"github.com/dball/destructive/internal/sys"
 	. "github.com/dball/destructive/internal/types"
 )
 
@@ -76,7 +77,10 @@ func (snapshot *indexSnapshot) selectWith(a access, match Datum) (datums iter.Se
 
 // Select returns the datums matching the claim.
 func (snapshot *indexSnapshot) Select(claim Claim) iter.Seq[Datum] {
-	match := snapshot.resolveClaim(claim)
+	match, ok := snapshot.resolveClaim(claim)
+	if !ok {
+		return func(yield func(Datum) bool) {}
+	}
 	return snapshot.selectWith(snapshot.access(match), match)
 }
 
@@ -84,7 +88,10 @@ func (snapshot *indexSnapshot) Select(claim Claim) iter.Seq[Datum] {
 // exact existence check against eav (a btree lookup, no allocation); other shapes
 // fall back to testing whether the access path yields anything.
 func (snapshot *indexSnapshot) Has(claim Claim) bool {
-	match := snapshot.resolveClaim(claim)
+	match, ok := snapshot.resolveClaim(claim)
+	if !ok {
+		return false
+	}
 	if match.E != 0 && match.A != 0 && match.V != nil {
 		return snapshot.eav.Find(match)
 	}
@@ -98,7 +105,10 @@ func (snapshot *indexSnapshot) Has(claim Claim) bool {
 // directly through the typed indexes (which tally without materializing values);
 // value-filtered and unconstrained shapes are counted by enumeration.
 func (snapshot *indexSnapshot) Count(claim Claim) (count int) {
-	match := snapshot.resolveClaim(claim)
+	match, ok := snapshot.resolveClaim(claim)
+	if !ok {
+		return
+	}
 	a := snapshot.access(match)
 	if a.all || a.filterV != nil {
 		for range snapshot.selectWith(a, match) {
@@ -150,17 +160,23 @@ func (snapshot *indexSnapshot) ResolveAttrIdent(id ID) (ident Ident) {
 	return
 }
 
-func (snapshot *indexSnapshot) resolveLookupRef(ref LookupRef) (id ID) {
-	datum := Datum{V: ref.V}
-	switch a := ref.A.(type) {
+// resolveIDRef returns the id to which the ref resolves, or 0 if it does not.
+func (snapshot *indexSnapshot) resolveIDRef(ref any) (id ID) {
+	switch r := ref.(type) {
 	case ID:
-		datum.A = a
+		id = r
 	case Ident:
-		datum.A = snapshot.idents[a]
-	default:
-		return
+		id = snapshot.idents[r]
+	case LookupRef:
+		id = snapshot.resolveLookupRef(r)
 	}
-	if snapshot.attrs[datum.A].Unique == 0 {
+	return
+}
+
+func (snapshot *indexSnapshot) resolveLookupRef(ref LookupRef) (id ID) {
+	datum := Datum{A: snapshot.resolveIDRef(ref.A), V: ref.V}
+	attr := snapshot.attrs[datum.A]
+	if attr.Unique == 0 || !sys.ValidValue(attr.Type, ref.V) {
 		return
 	}
 	match, ok := snapshot.ave.First(index.AV, datum)
@@ -170,24 +186,34 @@ func (snapshot *indexSnapshot) resolveLookupRef(ref LookupRef) (id ID) {
 	return
 }
 
-func (snapshot *indexSnapshot) resolveClaim(claim Claim) (match Datum) {
-	switch e := claim.E.(type) {
-	case ID:
-		match.E = e
-	case Ident:
-		match.E = snapshot.idents[e]
-	case LookupRef:
-		match.E = snapshot.resolveLookupRef(e)
+// resolveClaim resolves the refs in the claim. If any does not resolve, or if the attribute
+// cannot have the value, no datum can match and ok is false.
+func (snapshot *indexSnapshot) resolveClaim(claim Claim) (match Datum, ok bool) {
+	if claim.E != nil && claim.E != ERef(ID(0)) {
+		match.E = snapshot.resolveIDRef(claim.E)
+		if match.E == 0 {
+			return
+		}
 	}
-	switch a := claim.A.(type) {
-	case ID:
-		match.A = a
-	case Ident:
-		match.A = snapshot.idents[a]
+	if claim.A != nil && claim.A != IDRef(ID(0)) {
+		match.A = snapshot.resolveIDRef(claim.A)
+		if match.A == 0 {
+			return
+		}
 	}
-	value, ok := claim.V.(Value)
-	if ok {
-		match.V = value
+	switch v := claim.V.(type) {
+	case nil:
+	case Ident, LookupRef:
+		id := snapshot.resolveIDRef(v)
+		if id == 0 {
+			return
+		}
+		match.V = id
+	case Value:
+		match.V = v
+	default:
+		return
 	}
+	ok = match.A == 0 || match.V == nil || sys.ValidValue(snapshot.attrs[match.A].Type, match.V)
 	return
 }
-- 
2.43.0


From 19d0cba5bf2afd91c3b56fa967552bd3062135ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:41 +0000
Subject: [PATCH 07/23] fix: reject lookup refs with values of the wrong type,
 and resolve nested ones

---
 internal/database/database.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/internal/database/database.go b/internal/database/database.go
index 246dec0..1c106a1 100644
--- a/internal/database/database.go
+++ b/internal/database/database.go
@@ -484,10 +484,12 @@ func (db *indexDatabase) resolveLookupRef(ref LookupRef) (id ID) {
 		datum.A = a
 	case Ident:
 		datum.A = db.idents[a]
+	case LookupRef:
+		datum.A = db.resolveLookupRef(a)
 	default:
 		return
 	}
-	if db.attrUniques[datum.A] == 0 {
+	if db.attrUniques[datum.A] == 0 || !sys.ValidValue(db.attrTypes[datum.A], ref.V) {
 		return
 	}
 	match, ok := db.ave.First(index.AV, datum)
-- 
2.43.0


From 53aaffa96547c5cb09e4b48d5422107279f26e98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:42 +0000
Subject: [PATCH 08/23] fix: reject unconstrained retractions and unissued ids,
 and always respond with a snapshot

---
 internal/database/database.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/internal/database/database.go b/internal/database/database.go
index 1c106a1..8e22edf 100644
--- a/internal/database/database.go
+++ b/internal/database/database.go
@@ -123,16 +123,23 @@ func (db *indexDatabase) Write(req Request) (res Response) {
 					refID = db.resolveLookupRef(e)
 				}
 				switch {
-				case refID == 0:
+				case refID == 0 || refID >= db.nextID:
 					res.Error = NewError("database.write.invalidE", "retraction", retraction, "ref", ref)
+					res.Snapshot = db.read()
 					return
 				case id == 0:
 					id = refID
 				case id != refID:
 					res.Error = NewError("database.write.inconsistentE", "retraction", retraction, "ref", ref, "id", id)
+					res.Snapshot = db.read()
 					return
 				}
 			}
+			if id == 0 {
+				res.Error = NewError("database.write.unconstrainedRetraction", "retraction", retraction)
+				res.Snapshot = db.read()
+				return
+			}
 			ids[id] = Void{}
 		}
 		for id := range ids {
-- 
2.43.0


From 3a0b709ac6bc888173b34392093e641c1f391d6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:44 +0000
Subject: [PATCH 09/23] fix: resolve identity claims before judging claims and
 enforce uniqueness within requests

---
 internal/database/database.go | 130 +++++++++++++++++++++++-----------
 1 file changed, 88 insertions(+), 42 deletions(-)

diff --git a/internal/database/database.go b/internal/database/database.go
index 8e22edf..dc06393 100644
--- a/internal/database/database.go
+++ b/internal/database/database.go
@@ -101,7 +101,6 @@ func (db *indexDatabase) read() (snapshot Snapshot) {
 }
 
 func (db *indexDatabase) Write(req Request) (res Response) {
-	rewrites := map[ID]ID{}
 	db.lock.Lock()
 	defer db.lock.Unlock()
 	attrChanges := map[ID]Attr{}
@@ -154,33 +153,22 @@ func (db *indexDatabase) Write(req Request) (res Response) {
 	res.ID = db.allocateID()
 	res.TempIDs = map[TempID]ID{}
 	data := make([]*Datum, 0, len(claims))
-CLAIMS:
 	for _, claim := range claims {
 		datum := db.evaluateClaim(&res, &claim)
 		if res.Error != nil {
 			break
 		}
-		if !claim.Retract {
-			unique := db.attrUniques[datum.A]
-			if unique != 0 {
-				d, ok := db.ave.First(index.AV, *datum)
-				if ok {
-					switch unique {
-					case sys.AttrUniqueIdentity:
-						_, ok := rewrites[datum.E]
-						if ok {
-							res.Error = NewError("database.write.uniqueValueImpossible", "datum", datum)
-							break CLAIMS
-						} else {
-							rewrites[datum.E] = d.E
-						}
-					case sys.AttrUniqueValue:
-						res.Error = NewError("database.write.uniqueValueCollision", "datum", datum, "extant", d)
-						break CLAIMS
-					}
-				}
-			}
-		}
+		data = append(data, datum)
+	}
+	if res.Error == nil {
+		db.resolveUniques(&res, claims, data)
+	}
+	if res.Error != nil {
+		data = nil
+	}
+CLAIMS:
+	for i, datum := range data {
+		claim := claims[i]
 		// Enforce system invariants and maintain database caches.
 		switch datum.A {
 		case sys.DbIdent:
@@ -262,7 +250,6 @@ CLAIMS:
 				attrChanges[datum.E] = attr
 			}
 		}
-		data = append(data, datum)
 	}
 	for id, attr := range attrChanges {
 		ident, ok := identCreates[id]
@@ -294,24 +281,6 @@ CLAIMS:
 		// We could consider transacting into the indexes concurrently.
 		for i, datum := range data {
 			claim := claims[i]
-			// TempIDs may have been assigned IDs that subsequently resolved to identity
-			// unique datum ids, so we rewrite them if so.
-			tempid, ok := claim.E.(TempID)
-			if ok {
-				id, ok := rewrites[datum.E]
-				if ok {
-					datum.E = id
-					res.TempIDs[tempid] = id
-				}
-			}
-			tempid, ok = claim.V.(TempID)
-			if ok {
-				id, ok := rewrites[datum.V.(ID)]
-				if ok {
-					datum.V = id
-					res.TempIDs[tempid] = id
-				}
-			}
 			if !claim.Retract {
 				_, ok := db.attrCardManies[datum.A]
 				if !ok {
@@ -478,6 +447,83 @@ func (db *indexDatabase) evaluateClaim(res *Response, claim *Claim) (datum *Datu
 	return
 }
 
+// resolveUniques rewrites the ids allocated to tempids for which the claims assert identity unique
+// values, and rejects claims of unique values that belong to other entities. Entities may come to hold
+// a value by way of the database or of the request.
+func (db *indexDatabase) resolveUniques(res *Response, claims []Claim, data []*Datum) {
+	rewrites := map[ID]ID{}
+	rewrite := func(id ID) ID {
+		for {
+			to, ok := rewrites[id]
+			if !ok {
+				return id
+			}
+			id = to
+		}
+	}
+	// Rewriting the id of a referent may reveal the holder of another value.
+	for again := true; again; {
+		again = false
+		asserted := index.NewCompositeIndex(32, index.AVEIndex, db.attrTypes)
+		for i, datum := range data {
+			claim := claims[i]
+			datum.E = rewrite(datum.E)
+			if _, ok := claim.V.(TempID); ok {
+				datum.V = rewrite(datum.V.(ID))
+			}
+			if claim.Retract || db.attrUniques[datum.A] != sys.AttrUniqueIdentity {
+				continue
+			}
+			for _, idx := range []index.Index{db.ave, asserted} {
+				d, ok := idx.First(index.AV, *datum)
+				if !ok {
+					continue
+				}
+				id := rewrite(d.E)
+				// Of the ids in a request, only those allocated to its tempids exceed the txn's.
+				switch {
+				case id == datum.E:
+				case datum.E > res.ID:
+					rewrites[datum.E] = id
+					datum.E = id
+					again = true
+				case id > res.ID:
+					rewrites[id] = datum.E
+					again = true
+				default:
+					res.Error = NewError("database.write.uniqueValueImpossible", "datum", datum)
+					return
+				}
+			}
+			asserted.Insert(*datum)
+		}
+	}
+	for tempid, id := range res.TempIDs {
+		res.TempIDs[tempid] = rewrite(id)
+	}
+	asserted := index.NewCompositeIndex(32, index.AVEIndex, db.attrTypes)
+	for i, datum := range data {
+		claim := claims[i]
+		if claim.Retract || db.attrUniques[datum.A] != sys.AttrUniqueValue {
+			continue
+		}
+		d, ok := db.ave.First(index.AV, *datum)
+		if ok {
+			_, isTemp := claim.E.(TempID)
+			if isTemp || d.E != datum.E {
+				res.Error = NewError("database.write.uniqueValueCollision", "datum", datum, "extant", d)
+				return
+			}
+		}
+		d, ok = asserted.First(index.AV, *datum)
+		if ok && d.E != datum.E {
+			res.Error = NewError("database.write.uniqueValueCollision", "datum", datum, "extant", d)
+			return
+		}
+		asserted.Insert(*datum)
+	}
+}
+
 func (db *indexDatabase) allocateID() (id ID) {
 	id = db.nextID
 	db.nextID++
-- 
2.43.0


From 0ca74d28f808c3b7833f81e2c24bc170789cd9cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:45 +0000
Subject: [PATCH 10/23] fix: reject claims about system entities

---
 internal/database/database.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/internal/database/database.go b/internal/database/database.go
index dc06393..c70ffc7 100644
--- a/internal/database/database.go
+++ b/internal/database/database.go
@@ -169,6 +169,10 @@ func (db *indexDatabase) Write(req Request) (res Response) {
 CLAIMS:
 	for i, datum := range data {
 		claim := claims[i]
+		if datum.E < sys.FirstUserID {
+			res.Error = NewError("database.write.systemEntityDisallowed", "datum", datum)
+			break CLAIMS
+		}
 		// Enforce system invariants and maintain database caches.
 		switch datum.A {
 		case sys.DbIdent:
-- 
2.43.0


From f2824bc4c6bc5348da24dc07dff21fac25039a83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:46 +0000
Subject: [PATCH 11/23] fix: keep ident resolution in step with the ident
 datums

---
 internal/database/database.go | 26 ++++++++++++++------------
 1 file changed, 14 insertions(+), 12 deletions(-)

diff --git a/internal/database/database.go b/internal/database/database.go
index c70ffc7..01f9322 100644
--- a/internal/database/database.go
+++ b/internal/database/database.go
@@ -105,7 +105,6 @@ func (db *indexDatabase) Write(req Request) (res Response) {
 	defer db.lock.Unlock()
 	attrChanges := map[ID]Attr{}
 	identCreates := map[ID]Ident{}
-	identDeletes := map[ID]Ident{}
 	claims := req.Claims
 	if len(req.Retractions) != 0 {
 		ids := make(map[ID]Void, len(req.Retractions))
@@ -193,10 +192,11 @@ CLAIMS:
 					res.Error = NewError("database.write.invalidUserIdent", "datum", datum)
 					break CLAIMS
 				}
-				if claim.Retract {
-					identDeletes[datum.E] = ident
-				} else {
+				switch {
+				case !claim.Retract:
 					identCreates[datum.E] = ident
+				case identCreates[datum.E] == ident:
+					delete(identCreates, datum.E)
 				}
 			}
 		case sys.AttrType:
@@ -300,6 +300,9 @@ CLAIMS:
 							if ok {
 								ave.Delete(d)
 							}
+							if d.A == sys.DbIdent {
+								delete(db.idents, Ident(d.V.(String)))
+							}
 						}
 					}
 				}
@@ -309,24 +312,24 @@ CLAIMS:
 				if ok {
 					ave.Insert(*datum)
 				}
+				if datum.A == sys.DbIdent {
+					db.idents[Ident(datum.V.(String))] = datum.E
+				}
 			} else {
-				eav.Delete(*datum)
+				extant := eav.Delete(*datum)
 				aev.Delete(*datum)
 				_, ok := db.attrUniques[datum.A]
 				if ok {
 					ave.Delete(*datum)
 				}
+				if extant && datum.A == sys.DbIdent {
+					delete(db.idents, Ident(datum.V.(String)))
+				}
 			}
 		}
 		db.eav = eav
 		db.aev = aev
 		db.ave = ave
-		for _, ident := range identDeletes {
-			delete(db.idents, ident)
-		}
-		for id, ident := range identCreates {
-			db.idents[ident] = id
-		}
 		if len(attrChanges) != 0 {
 			// Snapshots read the extant map through their indexes, so we must not change it.
 			db.attrTypes = maps.Clone(db.attrTypes)
@@ -338,7 +341,6 @@ CLAIMS:
 			db.ave.Retype(db.attrTypes)
 		}
 		for id, attr := range attrChanges {
-			db.idents[attr.Ident] = id
 			db.attrsByID[id] = attr
 			db.attrsByIdent[attr.Ident] = attr
 			if attr.Cardinality == sys.AttrCardinalityMany {
-- 
2.43.0


From 33224e522db372791643a0ad4710421b34d4e509 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:47 +0000
Subject: [PATCH 12/23] fix: keep extant instants and NaNs when they are
 asserted again

---
 internal/database/database.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/database/database.go b/internal/database/database.go
index 01f9322..ffae146 100644
--- a/internal/database/database.go
+++ b/internal/database/database.go
@@ -291,7 +291,7 @@ CLAIMS:
 					// if this is cardinality one, we must replace extant datum if ea but not v
 					d, ok := eav.First(index.EA, *datum)
 					if ok {
-						if d.V == datum.V {
+						if valuesEqual(d.V, datum.V) {
 							continue
 						} else {
 							eav.Delete(d)
-- 
2.43.0


From 3b16b4be94aac3ed5b18aa370071014272c530ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:48 +0000
Subject: [PATCH 13/23] fix: reject requests that assert several values of a
 cardinality one attribute

---
 internal/database/database.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/internal/database/database.go b/internal/database/database.go
index ffae146..4d58d9a 100644
--- a/internal/database/database.go
+++ b/internal/database/database.go
@@ -165,9 +165,19 @@ func (db *indexDatabase) Write(req Request) (res Response) {
 	if res.Error != nil {
 		data = nil
 	}
+	asserted := index.NewCompositeIndex(32, index.EAVIndex, db.attrTypes)
 CLAIMS:
 	for i, datum := range data {
 		claim := claims[i]
+		_, cardMany := db.attrCardManies[datum.A]
+		if !claim.Retract && !cardMany {
+			d, ok := asserted.First(index.EA, *datum)
+			if ok && !valuesEqual(d.V, datum.V) {
+				res.Error = NewError("database.write.cardinalityOneConflict", "datum", datum, "other", d)
+				break CLAIMS
+			}
+			asserted.Insert(*datum)
+		}
 		if datum.E < sys.FirstUserID {
 			res.Error = NewError("database.write.systemEntityDisallowed", "datum", datum)
 			break CLAIMS
-- 
2.43.0


From f5283910612e81db8cd6f41d26753092f84068ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:08 +0000
Subject: [PATCH 14/23] fix: ignore struct fields without attr tags

---
 internal/structs/models/models.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/internal/structs/models/models.go b/internal/structs/models/models.go
index d0c55f7..e224687 100644
--- a/internal/structs/models/models.go
+++ b/internal/structs/models/models.go
@@ -112,6 +112,9 @@ func Analyze(typ reflect.Type) (model StructModel, err error) {
 			err = fieldErr
 			return
 		}
+		if attr.Ident == "" {
+			continue
+		}
 		attr.Index = i
 		attrFields = append(attrFields, attr)
 	}
-- 
2.43.0


From 69b320dea296bb0ebaf1db7eb3664f7c4d433168 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:09 +0000
Subject: [PATCH 15/23] fix: cache the models of valid struct types, not panic
 on invalid ones

---
 internal/structs/models/models.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/internal/structs/models/models.go b/internal/structs/models/models.go
index e224687..3a52176 100644
--- a/internal/structs/models/models.go
+++ b/internal/structs/models/models.go
@@ -4,6 +4,7 @@ package models
 import (
 	"reflect"
 	"strings"
+	"sync"
 
 	"github.com/dball/destructive/internal/sys"
 	. "github.com/dball/destructive/internal/types"
@@ -16,27 +17,32 @@ type Analyzer interface {
 }
 
 type cachingAnalyzer struct {
+	lock  sync.RWMutex
 	types map[reflect.Type]*StructModel
 }
 
 var _ Analyzer = (*cachingAnalyzer)(nil)
 
 func (analyzer *cachingAnalyzer) Analyze(typ reflect.Type) (model StructModel, err error) {
+	analyzer.lock.RLock()
 	mp := analyzer.types[typ]
+	analyzer.lock.RUnlock()
 	if mp != nil {
 		model = *mp
 		return
 	}
 	model, err = Analyze(typ)
-	if err != nil {
+	if err == nil {
+		analyzer.lock.Lock()
 		analyzer.types[typ] = &model
+		analyzer.lock.Unlock()
 	}
 	return
 }
 
 // BuildCachingAnalyzer returns an analyzer with a cache of type models.
 func BuildCachingAnalyzer() Analyzer {
-	return &cachingAnalyzer{}
+	return &cachingAnalyzer{types: map[reflect.Type]*StructModel{}}
 }
 
 // StructModel models a struct that has fields bound to attributes, whose instances
-- 
2.43.0


From c6b8d4b3434fafca99f867ba64c11b814e7f8b69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:40 +0000
Subject: [PATCH 16/23] fix: assemble entities once per struct type and
 complete values before copying them

---
 internal/structs/assemblers/assemblers.go | 456 ++++++++++------------
 1 file changed, 213 insertions(+), 243 deletions(-)

diff --git a/internal/structs/assemblers/assemblers.go b/internal/structs/assemblers/assemblers.go
index 6809759..dd3fb44 100644
--- a/internal/structs/assemblers/assemblers.go
+++ b/internal/structs/assemblers/assemblers.go
@@ -10,88 +10,106 @@ import (
 	. "github.com/dball/destructive/internal/types"
 )
 
+// instanceKey identifies an instance. An entity may be reached as several types of struct.
+type instanceKey struct {
+	id  ID
+	typ reflect.Type
+}
+
+// valueAwaitingInstance is a struct field awaiting a copy of the instance of its referent.
+type valueAwaitingInstance struct {
+	field reflect.Value
+	key   instanceKey
+}
+
 type mapAwaitingEntry struct {
-	mapKey         Ident
-	m              reflect.Value
-	pointer        reflect.Value
-	mapHasPointers bool
+	m     reflect.Value
+	key   reflect.Value
+	value reflect.Value
 }
 
 type sliceAwaitingEntry struct {
-	collValue Ident
-	slice     reflect.Value
-	pointer   reflect.Value
+	slice reflect.Value
+	index int
+	value reflect.Value
 }
 
-// TODO an assembler can only have a single instance type per id, which is not a constraint imposed
-// by the database. Should we reify this more formally?
 type assembler struct {
 	// analyzer converts types to struct models
 	analyzer models.Analyzer
 	// snapshot holds the actual datums
 	snapshot Snapshot
-	// instances are pointers to fully realized entity instances
-	instances map[ID]reflect.Value
-	// pointers are pointers to all of the at least partially realized entities allocated by the assembler
-	pointers map[ID]reflect.Value
-	// unprocessed are (not nil) pointers to unrealized entities
-	unprocessed map[ID]reflect.Value
-	// mapsAwaitingEntries are maps in entity struct fields awaiting referent entities to be realized
-	mapsAwaitingEntries map[ID][]mapAwaitingEntry
-	// slicesAwaitingEntries are slices in entity struct fields awaiting referent entities to be realized
-	slicesAwaitingEntries map[ID][]sliceAwaitingEntry
+	// instances are pointers to all of the at least partially realized entities allocated by the assembler
+	instances map[instanceKey]reflect.Value
+	// missing are the instances whose entities have no datums
+	missing map[instanceKey]Void
+	// unprocessed are the keys of unrealized instances
+	unprocessed []instanceKey
+	// valuesAwaitingInstances are the struct fields in instances awaiting referent entities to be realized
+	valuesAwaitingInstances map[instanceKey][]valueAwaitingInstance
+	// mapsAwaitingEntries are entries for maps awaiting referent entities to be realized
+	mapsAwaitingEntries []mapAwaitingEntry
+	// slicesAwaitingEntries are entries for slices awaiting referent entities to be realized
+	slicesAwaitingEntries []sliceAwaitingEntry
 }
 
 func NewAssembler(analyzer models.Analyzer, snapshot Snapshot) (as *assembler) {
 	as = &assembler{
-		analyzer:              analyzer,
-		snapshot:              snapshot,
-		instances:             map[ID]reflect.Value{},
-		pointers:              map[ID]reflect.Value{},
-		unprocessed:           map[ID]reflect.Value{},
-		mapsAwaitingEntries:   map[ID][]mapAwaitingEntry{},
-		slicesAwaitingEntries: map[ID][]sliceAwaitingEntry{},
+		analyzer:                analyzer,
+		snapshot:                snapshot,
+		instances:               map[instanceKey]reflect.Value{},
+		missing:                 map[instanceKey]Void{},
+		valuesAwaitingInstances: map[instanceKey][]valueAwaitingInstance{},
 	}
 	return
 }
 
-func (as *assembler) allocate(id ID, pointerType reflect.Type) (ptr reflect.Value) {
-	// allocate the new pointer
-	pp := reflect.New(pointerType)
-	ptr = pp.Elem()
-	// allocate the new struct
-	entity := reflect.New(ptr.Type().Elem())
-	// store the new struct in the new pointer
-	ptr.Set(entity)
-	// store the pointer in the unrealized entities map
-	as.unprocessed[id] = ptr
-	as.pointers[id] = ptr
+// allocate returns the pointer to the instance with the given key, which may be as yet unrealized.
+func (as *assembler) allocate(key instanceKey) (ptr reflect.Value) {
+	ptr, ok := as.instances[key]
+	if !ok {
+		ptr = reflect.New(key.typ)
+		as.instances[key] = ptr
+		as.unprocessed = append(as.unprocessed, key)
+	}
 	return
 }
 
 func (as *assembler) assembleAll() (err error) {
-	for {
-		if len(as.unprocessed) == 0 {
-			break
-		}
-		var id ID
-		var ptr reflect.Value
-		// TODO this should ideally be the first value in id order, so, again, sorted map
-		for k, v := range as.unprocessed {
-			id = k
-			ptr = v
-			delete(as.unprocessed, k)
-			break
-		}
-		err = as.assemble(id, ptr)
+	for len(as.unprocessed) > 0 {
+		key := as.unprocessed[0]
+		as.unprocessed = as.unprocessed[1:]
+		err = as.assemble(key, as.instances[key])
 		if err != nil {
 			return
 		}
 	}
+	// Struct types cannot contain themselves, so there is always an instance with none awaiting.
+	for key := range as.valuesAwaitingInstances {
+		as.copyValues(key)
+	}
+	for _, mae := range as.mapsAwaitingEntries {
+		mae.m.SetMapIndex(mae.key, mae.value)
+	}
+	as.mapsAwaitingEntries = nil
+	for _, sae := range as.slicesAwaitingEntries {
+		sae.slice.Index(sae.index).Set(sae.value)
+	}
+	as.slicesAwaitingEntries = nil
 	return
 }
 
-func (as *assembler) assemble(id ID, ptr reflect.Value) (err error) {
+// copyValues copies the referents of the struct fields in the instance, once they are complete.
+func (as *assembler) copyValues(key instanceKey) {
+	vais := as.valuesAwaitingInstances[key]
+	delete(as.valuesAwaitingInstances, key)
+	for _, vai := range vais {
+		as.copyValues(vai.key)
+		vai.field.Set(as.instances[vai.key].Elem())
+	}
+}
+
+func (as *assembler) assemble(key instanceKey, ptr reflect.Value) (err error) {
 	value := ptr.Elem()
 
 	model, modelErr := as.analyzer.Analyze(value.Type())
@@ -103,216 +121,175 @@ func (as *assembler) assemble(id ID, ptr reflect.Value) (err error) {
 	// We know the A's in which we're interested, so we could be more selective (heh) here
 	// if we had reason to believe the snapshot E had many more A's.
 	foundAny := false
-	for datum := range as.snapshot.Select(Claim{E: id}) {
+	for datum := range as.snapshot.Select(Claim{E: key.id}) {
 		foundAny = true
 		ident := as.snapshot.ResolveAttrIdent(datum.A)
-		attr, ok := model.Attr(ident)
-		if !ok {
-			// Here's where we could be accumulating stats of attr hit rates for e types, sort of.
-			continue
-		}
-		field := value.Field(attr.Index)
-		if attr.IsPointer() {
-			// TODO who owns the vs anyway? If they're not copied at some point,
-			// exposing value pointers opens the door to database corruption.
-			switch v := datum.V.(type) {
-			case String:
-				// TODO does this count as a copy for the purpose of ensuring the
-				// outer pointer doesn't change the Fact value?
-				fv := string(v)
-				field.Set(reflect.ValueOf(&fv))
-			case Int:
-				fv := int(v)
-				field.Set(reflect.ValueOf(&fv))
-			case Bool:
-				fv := bool(v)
-				field.Set(reflect.ValueOf(&fv))
-			case Float:
-				fv := float64(v)
-				field.Set(reflect.ValueOf(&fv))
-			case Inst:
-				fv := time.Time(v)
-				field.Set(reflect.ValueOf(&fv))
-			case ID:
-				pointer, ok := as.pointers[v]
-				if ok {
-					field.Set(pointer)
-				} else {
-					pointer := as.allocate(v, field.Type())
-					field.Set(pointer)
-				}
-			default:
-				err = NewError("assembler.invalidFactPointerValue")
-				return
+		// Here's where we could be accumulating stats of attr hit rates for e types, sort of.
+		for _, attr := range model.AttrFields {
+			if attr.Ident != ident {
+				continue
 			}
-		} else {
-			switch v := datum.V.(type) {
-			case String:
-				field.SetString(string(v))
-			case Int:
-				// TODO what about overflows?
-				field.SetInt(int64(v))
-			case Bool:
-				field.SetBool(bool(v))
-			case Float:
-				field.SetFloat(float64(v))
-			case Inst:
-				field.Set(reflect.ValueOf(time.Time(v)))
-			case ID:
-				switch {
-				case attr.Ident == sys.DbId:
-					field.SetUint(uint64(v))
-				case attr.IsMap():
-					var m reflect.Value
-					if field.IsNil() {
-						n := as.snapshot.Count(Claim{E: datum.E, A: datum.A})
-						m = reflect.MakeMapWithSize(field.Type(), n)
-						field.Set(m)
-					} else {
-						m = field
-					}
-					mapValueType := m.Type().Elem()
-					mapHasPointers := mapValueType.Kind() == reflect.Pointer
-					if mapHasPointers {
-						mapValueType = mapValueType.Elem()
-					}
-					pointer, ok := as.pointers[v]
-					if !ok {
-						pointer = as.allocate(v, reflect.PointerTo(mapValueType))
-					}
-					as.addEntityToMap(attr.MapKey, m, v, pointer, mapHasPointers, ok)
-				case attr.IsSlice():
-					var slice reflect.Value
-					if field.IsNil() {
-						n := as.snapshot.Count(Claim{E: datum.E, A: datum.A})
-						slice = reflect.MakeSlice(field.Type(), n, n)
-						field.Set(slice)
-					} else {
-						slice = field
-					}
-					if attr.CollValue == "" {
-						sliceValueType := slice.Type().Elem()
-						pointer, ok := as.pointers[v]
-						if !ok {
-							pointer = as.allocate(v, reflect.PointerTo(sliceValueType))
-						}
-						as.addEntityToSlice(attr.CollValue, slice, v, pointer, ok)
-					} else {
-						// Since we have exactly two facts to find, we can reasonably just go right to them,
-						// though we may want to mark the entity id as processed now.
-						scalar := as.findValue(v, attr.CollValue)
-						i := int(as.findValue(v, Ident("sys/db/rank")).(int64))
-						slice.Index(i).Set(reflect.ValueOf(scalar))
-					}
-				default:
-					pointer, ok := as.pointers[v]
-					if ok {
-						field.Set(pointer.Elem())
-					} else {
-						pointer = field.Addr()
-						as.pointers[v] = pointer
-						as.unprocessed[v] = pointer
-					}
-				}
-			default:
-				err = NewError("assembler.invalidFactValue")
+			err = as.assembleField(key, value.Field(attr.Index), attr, datum)
+			if err != nil {
 				return
 			}
 		}
 	}
 	if !foundAny {
-		as.instances[id] = reflect.ValueOf(nil)
+		as.missing[key] = Void{}
 		return
 	}
 	attr, ok := model.Attr(Ident(sys.DbId))
 	if ok {
-		field := value.Field(attr.Index)
-		field.SetUint(uint64(id))
+		err = setScalar(value.Field(attr.Index), key.id)
 	}
-	maes, ok := as.mapsAwaitingEntries[id]
-	if ok {
-		for _, mae := range maes {
-			as.addEntityToMap(mae.mapKey, mae.m, id, mae.pointer, mae.mapHasPointers, true)
-		}
-		delete(as.mapsAwaitingEntries, id)
+	return
+}
+
+func (as *assembler) assembleField(key instanceKey, field reflect.Value, attr models.AttrFieldModel, datum Datum) (err error) {
+	if !field.CanSet() {
+		err = NewError("assembler.unexportedField", "attr", attr)
+		return
 	}
-	saes, ok := as.slicesAwaitingEntries[id]
-	if ok {
-		for _, sae := range saes {
-			as.addEntityToSlice(sae.collValue, sae.slice, id, sae.pointer, true)
+	v, isRef := datum.V.(ID)
+	switch {
+	case !isRef && attr.IsPointer():
+		// The scalar is a copy, so changing it does not change the database.
+		pointer := reflect.New(field.Type().Elem())
+		err = setScalar(pointer.Elem(), datum.V)
+		if err == nil {
+			field.Set(pointer.Convert(field.Type()))
 		}
-		delete(as.slicesAwaitingEntries, id)
+	case !isRef:
+		err = setScalar(field, datum.V)
+	case attr.IsPointer() && isEntityType(field.Type().Elem()):
+		pointer := as.allocate(instanceKey{v, field.Type().Elem()})
+		field.Set(pointer.Convert(field.Type()))
+	case attr.IsMap():
+		if field.IsNil() {
+			n := as.snapshot.Count(Claim{E: datum.E, A: datum.A})
+			field.Set(reflect.MakeMapWithSize(field.Type(), n))
+		}
+		err = as.addEntityToMap(attr.MapKey, field, v)
+	case attr.IsSlice():
+		if field.IsNil() {
+			n := as.snapshot.Count(Claim{E: datum.E, A: datum.A})
+			field.Set(reflect.MakeSlice(field.Type(), n, n))
+		}
+		err = as.addEntityToSlice(attr.CollValue, field, v)
+	case isEntityType(field.Type()):
+		valueKey := instanceKey{v, field.Type()}
+		as.allocate(valueKey)
+		vais := as.valuesAwaitingInstances[key]
+		as.valuesAwaitingInstances[key] = append(vais, valueAwaitingInstance{field, valueKey})
+	default:
+		err = NewError("assembler.invalidFactValue", "attr", attr, "datum", datum)
+	}
+	return
+}
+
+// isEntityType indicates that values of the type are entities.
+func isEntityType(typ reflect.Type) bool {
+	return typ.Kind() == reflect.Struct && typ != TimeType
+}
+
+// setScalar sets the target to the scalar value if it has the corresponding type.
+func setScalar(target reflect.Value, value Value) (err error) {
+	var scalar reflect.Value
+	switch v := value.(type) {
+	case String:
+		scalar = reflect.ValueOf(string(v))
+	case Int:
+		// TODO what about overflows?
+		scalar = reflect.ValueOf(int(v))
+	case Bool:
+		scalar = reflect.ValueOf(bool(v))
+	case Float:
+		scalar = reflect.ValueOf(float64(v))
+	case Inst:
+		scalar = reflect.ValueOf(time.Time(v))
+	case ID:
+		scalar = reflect.ValueOf(uint64(v))
+	}
+	if !scalar.IsValid() || !target.CanSet() || target.Kind() != scalar.Kind() || !scalar.CanConvert(target.Type()) {
+		err = NewError("assembler.invalidScalar", "type", target.Type(), "value", value)
+		return
 	}
-	as.instances[id] = ptr
+	target.Set(scalar.Convert(target.Type()))
 	return
 }
 
-func (as *assembler) findValue(e ID, a Ident) (v any) {
+func (as *assembler) findValue(e ID, a Ident) (v Value, ok bool) {
+	if a == sys.DbId {
+		return e, true
+	}
 	// TODO snapshot should support SelectOne?
 	for datum := range as.snapshot.Select(Claim{E: e, A: a}) {
-		switch x := datum.V.(type) {
-		case String:
-			v = string(x)
-		case Int:
-			v = int64(x)
-		case Bool:
-			v = bool(x)
-		case Float:
-			v = float64(x)
-		case Inst:
-			v = time.Time(x)
-		case ID:
-			v = uint64(x)
-		default:
-			panic("assembler.invalidFactValue")
-		}
-		return
+		return datum.V, true
 	}
 	return
 }
 
-func (as *assembler) addEntityToMap(mapKey Ident, m reflect.Value, id ID, pointer reflect.Value, mapHasPointers bool, immediate bool) {
-	if immediate {
-		// findValue is the only way of finding the key value when it's not present on the value struct,
-		// though is plausibly much less efficient when that is the case. It might be useful to optimize
-		// that common case by constructing a more robust (cached) model of a struct's attributes that
-		// allows lookup by ident and use that to lookup the field value by index here.
-		key := as.findValue(id, mapKey)
-		value := pointer
-		if !mapHasPointers {
-			value = pointer.Elem()
-		}
-		m.SetMapIndex(reflect.ValueOf(key), value)
+func (as *assembler) addEntityToMap(mapKey Ident, m reflect.Value, id ID) (err error) {
+	entryType := m.Type().Elem()
+	hasPointers := entryType.Kind() == reflect.Pointer
+	if hasPointers {
+		entryType = entryType.Elem()
+	}
+	if !isEntityType(entryType) {
+		err = NewError("assembler.invalidMapValueType", "type", m.Type())
 		return
 	}
-	mae := mapAwaitingEntry{mapKey, m, pointer, mapHasPointers}
-	maes, ok := as.mapsAwaitingEntries[id]
+	// findValue is the only way of finding the key value when it's not present on the value struct,
+	// though is plausibly much less efficient when that is the case. It might be useful to optimize
+	// that common case by constructing a more robust (cached) model of a struct's attributes that
+	// allows lookup by ident and use that to lookup the field value by index here.
+	keyValue, ok := as.findValue(id, mapKey)
 	if !ok {
-		as.mapsAwaitingEntries[id] = []mapAwaitingEntry{mae}
+		// Entities without the key attribute, e.g. since retracted, have no place in the map.
+		return
+	}
+	key := reflect.New(m.Type().Key()).Elem()
+	err = setScalar(key, keyValue)
+	if err != nil {
+		return
+	}
+	value := as.allocate(instanceKey{id, entryType})
+	if hasPointers {
+		value = value.Convert(m.Type().Elem())
 	} else {
-		maes = append(maes, mae)
-		as.mapsAwaitingEntries[id] = maes
+		value = value.Elem()
 	}
+	as.mapsAwaitingEntries = append(as.mapsAwaitingEntries, mapAwaitingEntry{m, key, value})
+	return
 }
 
-func (as *assembler) addEntityToSlice(collValue Ident, slice reflect.Value, id ID, pointer reflect.Value, immediate bool) {
-	if immediate {
-		value := pointer.Elem()
-		index := as.findValue(id, Ident("sys/db/rank"))
-		i := int(index.(int64))
-		slice.Index(i).Set(value)
+func (as *assembler) addEntityToSlice(collValue Ident, slice reflect.Value, id ID) (err error) {
+	rank, ok := as.findValue(id, Ident("sys/db/rank"))
+	if !ok && !as.snapshot.Has(Claim{E: id}) {
+		// Entities that have been retracted leave a zero value in their place.
 		return
 	}
-	sae := sliceAwaitingEntry{collValue, slice, pointer}
-	saes, ok := as.slicesAwaitingEntries[id]
-	if !ok {
-		as.slicesAwaitingEntries[id] = []sliceAwaitingEntry{sae}
-	} else {
-		saes = append(saes, sae)
-		as.slicesAwaitingEntries[id] = saes
+	i, ok := rank.(Int)
+	if !ok || i < 0 || int(i) >= slice.Len() {
+		err = NewError("assembler.invalidRank", "id", id, "rank", rank)
+		return
+	}
+	if collValue != "" {
+		scalar, _ := as.findValue(id, collValue)
+		err = setScalar(slice.Index(int(i)), scalar)
+		return
+	}
+	if !isEntityType(slice.Type().Elem()) {
+		err = NewError("assembler.invalidSliceValueType", "type", slice.Type())
+		return
 	}
+	value := as.allocate(instanceKey{id, slice.Type().Elem()}).Elem()
+	as.slicesAwaitingEntries = append(as.slicesAwaitingEntries, sliceAwaitingEntry{slice, int(i), value})
+	return
 }
 
+// Assemble returns the entity with the given id as an instance of the struct type, if it has any datums.
 func Assemble[T any](as *assembler, id ID) (entity *T, err error) {
 	structType := reflect.TypeFor[T]()
 	_, modelErr := as.analyzer.Analyze(structType)
@@ -320,27 +297,20 @@ func Assemble[T any](as *assembler, id ID) (entity *T, err error) {
 		err = modelErr
 		return
 	}
-	instance, ok := as.instances[id]
-	if !ok {
-		as.allocate(id, reflect.TypeFor[*T]())
-		err = as.assembleAll()
-		if err != nil {
-			return
-		}
-		instance, ok = as.instances[id]
-		if !ok {
-			err = NewError("assembler.failure", "id", id)
-			return
-		}
+	if id == 0 {
+		return
 	}
-	if instance == reflect.ValueOf(nil) {
+	key := instanceKey{id, structType}
+	instance := as.allocate(key)
+	err = as.assembleAll()
+	if err != nil {
+		// Leave no partially realized entities for later calls to return.
+		*as = *NewAssembler(as.analyzer, as.snapshot)
 		return
 	}
-	extant := instance.Elem().Interface()
-	it, ok := extant.(T)
-	if !ok {
-		err = NewError("assembler.typeConflictForID", "id", id, "extant", extant, "type", structType)
+	if _, ok := as.missing[key]; ok {
+		return
 	}
-	entity = &it
+	entity = instance.Interface().(*T)
 	return
 }
-- 
2.43.0


From de20cd8ef2a2f19bf9eaea6a145a171e77dba6ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:41 +0000
Subject: [PATCH 17/23] fix: reject attr tags without idents

---
 internal/structs/models/models.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/internal/structs/models/models.go b/internal/structs/models/models.go
index 3a52176..fa9fa0f 100644
--- a/internal/structs/models/models.go
+++ b/internal/structs/models/models.go
@@ -210,6 +210,10 @@ func parseAttrField(field reflect.StructField) (attr AttrFieldModel, err error)
 func parseAttrTag(tag string) (attr AttrFieldModel, err error) {
 	parts := strings.Split(tag, ",")
 	attr.Ident = Ident(parts[0])
+	if attr.Ident == "" {
+		err = NewError("models.missingIdent", "tag", tag)
+		return
+	}
 	n := len(parts)
 	for i := 1; i < n; i++ {
 		part := parts[i]
-- 
2.43.0


From d979f22776545184204525b40ebb858cfde1d238 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:42 +0000
Subject: [PATCH 18/23] fix: reject unexported collection and struct fields,
 not panic

---
 internal/structs/shredder/field.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/internal/structs/shredder/field.go b/internal/structs/shredder/field.go
index aa3d286..198776d 100644
--- a/internal/structs/shredder/field.go
+++ b/internal/structs/shredder/field.go
@@ -40,6 +40,13 @@ func elementValue(v reflect.Value) any {
 }
 
 func getFieldValue(pointers map[reflect.Value]TempID, fieldType reflect.Type, fieldValue reflect.Value) (val any, err error) {
+	switch reflect.Indirect(fieldValue).Kind() {
+	case reflect.Struct, reflect.Map, reflect.Slice:
+		if !fieldValue.CanInterface() {
+			err = NewError("shredder.unexportedField", "type", fieldType)
+			return
+		}
+	}
 	switch fieldType.Kind() {
 	case reflect.Bool, reflect.Int, reflect.String, reflect.Float64:
 		val, _ = scalarValue(fieldValue)
-- 
2.43.0


From 4f974c8bd25e9d5f28eba1fbaac23457c7ce7f4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:43 +0000
Subject: [PATCH 19/23] fix: reject nil structs, not panic

---
 internal/structs/shredder/shredder.go | 8 ++++++++
 pkg/database/impl.go                  | 4 ++++
 2 files changed, 12 insertions(+)

diff --git a/internal/structs/shredder/shredder.go b/internal/structs/shredder/shredder.go
index 6edbcc7..2e91b2a 100644
--- a/internal/structs/shredder/shredder.go
+++ b/internal/structs/shredder/shredder.go
@@ -104,6 +104,10 @@ func (s *shredder) Shred(doc Document) (req Request, ids []ERef, err error) {
 
 func (s *shredder) assert(confetti *confetti, x any) (e TempID, claims []Claim, err error) {
 	typ := reflect.TypeOf(x)
+	if typ == nil {
+		err = NewError("shredder.nilStruct")
+		return
+	}
 	var fields reflect.Value
 	var id ID
 	switch typ.Kind() {
@@ -226,6 +230,10 @@ func (s *shredder) retract(confetti *confetti, x any) (retraction *Retraction, e
 	constraints := map[IDRef]Void{}
 	var fields reflect.Value
 	typ := reflect.TypeOf(x)
+	if typ == nil {
+		err = NewError("shredder.nilStruct")
+		return
+	}
 	var e ID
 	switch typ.Kind() {
 	case reflect.Struct:
diff --git a/pkg/database/impl.go b/pkg/database/impl.go
index 434916b..6aa9c3c 100644
--- a/pkg/database/impl.go
+++ b/pkg/database/impl.go
@@ -58,6 +58,10 @@ func (db *localDatabase) Read() *Snapshot {
 func (db *localDatabase) Write(req Request) (res Response) {
 	for _, assertion := range req.Assertions {
 		typ := reflect.TypeOf(assertion)
+		if typ == nil {
+			res.Error = types.NewError("database.write.nilAssertion")
+			return
+		}
 		if typ.Kind() == reflect.Pointer {
 			typ = typ.Elem()
 		}
-- 
2.43.0


From df06853a6c0b4fc58a3cc1865ff72e98666d5fd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:44 +0000
Subject: [PATCH 20/23] fix: respond to rejected public writes with a snapshot

---
 pkg/database/impl.go | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/pkg/database/impl.go b/pkg/database/impl.go
index 6aa9c3c..71cfe50 100644
--- a/pkg/database/impl.go
+++ b/pkg/database/impl.go
@@ -56,6 +56,11 @@ func (db *localDatabase) Read() *Snapshot {
 }
 
 func (db *localDatabase) Write(req Request) (res Response) {
+	defer func() {
+		if res.Snap == nil {
+			res.Snap = db.Read()
+		}
+	}()
 	for _, assertion := range req.Assertions {
 		typ := reflect.TypeOf(assertion)
 		if typ == nil {
@@ -92,14 +97,14 @@ func (db *localDatabase) Write(req Request) (res Response) {
 		return
 	}
 	ires := db.db.Write(ireq)
-	if ires.Error != nil {
-		res.Error = ires.Error
-		return
-	}
 	res.Snap = &Snapshot{
 		snap:     ires.Snapshot,
 		analyzer: db.analyzer,
 	}
+	if ires.Error != nil {
+		res.Error = ires.Error
+		return
+	}
 	n := len(req.Assertions)
 	res.IDs = make([]uint64, 0, n)
 	for i := range n {
-- 
2.43.0


From 19a365a99c3c826bbb6599514191862da804daf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:45 +0000
Subject: [PATCH 21/23] fix: record struct slice entries that have no
 attributes of their own

---
 internal/structs/shredder/shredder.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/internal/structs/shredder/shredder.go b/internal/structs/shredder/shredder.go
index 2e91b2a..4ecf63c 100644
--- a/internal/structs/shredder/shredder.go
+++ b/internal/structs/shredder/shredder.go
@@ -201,8 +201,8 @@ func (s *shredder) assert(confetti *confetti, x any) (e TempID, claims []Claim,
 					switch {
 					case attr.MapKey != "":
 						refFieldsClaims = append(refFieldsClaims, refFieldClaims...)
-					case len(refFieldClaims) > 0:
-						refFieldsClaims = append(refFieldsClaims, Claim{E: refFieldClaims[0].E, A: Ident("sys/db/rank"), V: Int(i)})
+					case reflect.TypeOf(vv).Kind() == reflect.Struct || len(refFieldClaims) > 0:
+						refFieldsClaims = append(refFieldsClaims, Claim{E: vref.(TempID), A: Ident("sys/db/rank"), V: Int(i)})
 						refFieldsClaims = append(refFieldsClaims, refFieldClaims...)
 					default:
 						err = NewError("shredder.missingSliceCollectionValue")
-- 
2.43.0


From dfab0df9016aff66d52a3ada0f54d9d79583ad59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:57 +0000
Subject: [PATCH 22/23] fix: resolve the idents of the system's uniquenesses

---
 internal/sys/sys.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/internal/sys/sys.go b/internal/sys/sys.go
index 3379624..bf4bb45 100644
--- a/internal/sys/sys.go
+++ b/internal/sys/sys.go
@@ -78,6 +78,8 @@ var Attrs map[ID]Attr = map[ID]Attr{
 var Idents map[Ident]ID = map[Ident]ID{
 	Ident("sys/db/ident"):                DbIdent,
 	Ident("sys/attr/unique"):             AttrUnique,
+	Ident("sys/attr/unique/identity"):    AttrUniqueIdentity,
+	Ident("sys/attr/unique/value"):       AttrUniqueValue,
 	Ident("sys/tx/at"):                   TxAt,
 	Ident("sys/attr/type"):               AttrType,
 	Ident("sys/attr/type/ref"):           AttrTypeRef,
-- 
2.43.0


From 5cfb6435ab6db36575fec0cfcd81879fdd339fe5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:27:04 +0000
Subject: [PATCH 23/23] fix: leave the memory beyond a request's claims alone

---
 internal/database/database.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/internal/database/database.go b/internal/database/database.go
index 4d58d9a..7674032 100644
--- a/internal/database/database.go
+++ b/internal/database/database.go
@@ -4,6 +4,7 @@ package database
 import (
 	"log"
 	"maps"
+	"slices"
 	"sync"
 
 	"github.com/dball/destructive/internal/index"
@@ -105,7 +106,8 @@ func (db *indexDatabase) Write(req Request) (res Response) {
 	defer db.lock.Unlock()
 	attrChanges := map[ID]Attr{}
 	identCreates := map[ID]Ident{}
-	claims := req.Claims
+	// We may append to the claims, but not into the caller's memory.
+	claims := slices.Clip(req.Claims)
 	if len(req.Retractions) != 0 {
 		ids := make(map[ID]Void, len(req.Retractions))
 		for _, retraction := range req.Retractions {
-- 
2.43.0

