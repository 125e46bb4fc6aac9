From c42411cd115998caf2f9558bce519f6009d13954 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:12:25 +0000
Subject: [PATCH 01/44] fix: skip patterns that cannot be encoded

A pattern rejected by the translator was registered with an empty filter,
which captures every tag.
---
 filtering/subscriptions.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/filtering/subscriptions.go b/filtering/subscriptions.go
index ddbdfa4..28281fc 100644
--- a/filtering/subscriptions.go
+++ b/filtering/subscriptions.go
@@ -129,6 +129,7 @@ func (sub Subscriptions) ToByteSubscriptions() ByteSubscriptions {
 			pfs, err := tdt.MakePrefixFilterString(tf[0], fields)
 			if err != nil {
 				log.Print(err)
+				continue
 			}
 			bsub[pfs] = &PartialSubscription{
 				Offset:    0,
-- 
2.43.0


From 218fae5fd3b69b7fa528d4d6ffb8f3c799a73e65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:12:26 +0000
Subject: [PATCH 02/44] fix: do not read past a short id when matching a filter

A tag with fewer bytes than the filter made every engine panic.
---
 filtering/filter_object.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/filtering/filter_object.go b/filtering/filter_object.go
index f047b0e..ea6f2ff 100644
--- a/filtering/filter_object.go
+++ b/filtering/filter_object.go
@@ -57,6 +57,12 @@ func (f *FilterObject) HasByteAt(bo int) bool {
 // Match returns true if the id is captured by this filter
 func (f *FilterObject) Match(id []byte) bool {
 	for i := 0; i < f.ByteSize; i++ {
+		if f.ByteOffset+i >= len(id) { // the id is too short for this byte
+			if f.ByteMask[i] != 255 {
+				return false
+			}
+			continue
+		}
 		if (id[f.ByteOffset+i]|f.ByteMask[i])^f.ByteFilter[i] != byte(0) {
 			return false
 		}
-- 
2.43.0


From 044c10cad1b7fdf60a82d053e77df4c927279d28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:12:28 +0000
Subject: [PATCH 03/44] fix: keep the subscription equal to the common prefix
 in the trie

NewPatriciaTrie never set the reportURI of the root, so a single
subscription, or one that is a prefix of all others, never matched.
---
 filtering/patricia_trie.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/filtering/patricia_trie.go b/filtering/patricia_trie.go
index 85dfca7..e49a1bc 100644
--- a/filtering/patricia_trie.go
+++ b/filtering/patricia_trie.go
@@ -438,6 +438,10 @@ func NewPatriciaTrie(sub Subscriptions) Engine {
 	}
 	pt.root = &PatriciaTrieNode{}
 	pt.root.filterObject = NewFilter(p1, 0)
+	// the common prefix itself can be a subscription
+	if psub, ok := bsub[p1]; ok {
+		pt.root.reportURI = psub.ReportURI
+	}
 	pt.root.build(p1, bsub)
 
 	// initialize the tdt.Core
-- 
2.43.0


From 85954b5f6642b9a0f79ad5e99e661b10ccc01d00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:12:30 +0000
Subject: [PATCH 04/44] fix: adding a shorter prefix must not lose the trie's
 subtree

PatriciaTrieNode.add dropped both the new subscription and the existing
subtree when the new filter is a proper prefix of the node's filter.
---
 filtering/patricia_trie.go | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/filtering/patricia_trie.go b/filtering/patricia_trie.go
index e49a1bc..8c0e6a0 100644
--- a/filtering/patricia_trie.go
+++ b/filtering/patricia_trie.go
@@ -204,7 +204,16 @@ func (ptn *PatriciaTrieNode) add(fs string, reportURI string) {
 		ptn.reportURI = ""
 		currentOffset := ptn.filterObject.Offset
 		ptn.filterObject = NewFilter(newCommonPrefix, currentOffset)
-		if ncpLength >= len(fs) {
+		if ncpLength >= len(fs) { // fs is a prefix of the existing filter
+			ptn.reportURI = reportURI
+			ptn.one = nil
+			ptn.zero = nil
+			switch newNode.filterObject.String[0] {
+			case '1':
+				ptn.one = newNode
+			case '0':
+				ptn.zero = newNode
+			}
 			return
 		}
 		switch fs[ncpLength] {
-- 
2.43.0


From a8cfbb1cda29a0d580cb46301a685ff656517255 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:12:31 +0000
Subject: [PATCH 05/44] fix: delete the root of the trie, and only the given
 subscription

A subscription held by a leaf root could not be deleted, and deleting a
pattern under one reportURI removed it for another one (or dissolved a
node that holds no subscription).
---
 filtering/patricia_trie.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/filtering/patricia_trie.go b/filtering/patricia_trie.go
index 8c0e6a0..7784b99 100644
--- a/filtering/patricia_trie.go
+++ b/filtering/patricia_trie.go
@@ -323,7 +323,12 @@ func (ptn *PatriciaTrieNode) delete(fs string, reportURI string) {
 
 	// This is the filter to delete
 	if fs == ptn.filterObject.String {
-		if ptn.one != nil && ptn.zero != nil { // node in the middle
+		if ptn.reportURI != reportURI { // subscribed by someone else, or not at all
+			return
+		}
+		if ptn.one == nil && ptn.zero == nil { // a leaf, only when this is the root
+			ptn.reportURI = ""
+		} else if ptn.one != nil && ptn.zero != nil { // node in the middle
 			ptn.reportURI = ""
 		} else if ptn.one != nil { // has only one node
 			newFilter := NewFilter(ptn.filterObject.String+ptn.one.filterObject.String, ptn.filterObject.Offset)
@@ -347,6 +352,7 @@ func (ptn *PatriciaTrieNode) delete(fs string, reportURI string) {
 		case '1':
 			if ptn.one != nil {
 				if fs[ptn.filterObject.Size:] == ptn.one.filterObject.String &&
+					ptn.one.reportURI == reportURI &&
 					ptn.one.one == nil && ptn.one.zero == nil {
 					ptn.one = nil
 				} else {
@@ -356,6 +362,7 @@ func (ptn *PatriciaTrieNode) delete(fs string, reportURI string) {
 		case '0':
 			if ptn.zero != nil {
 				if fs[ptn.filterObject.Size:] == ptn.zero.filterObject.String &&
+					ptn.zero.reportURI == reportURI &&
 					ptn.zero.one == nil && ptn.zero.zero == nil {
 					ptn.zero = nil
 				} else {
-- 
2.43.0


From f6ec9d1821599c6bd394b7b9f158f6cd13acb538 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:12:33 +0000
Subject: [PATCH 06/44] fix: restore the zero branch of a trie node

UnmarshalBinary looked at hasOne instead of hasZero.
---
 filtering/patricia_trie.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/filtering/patricia_trie.go b/filtering/patricia_trie.go
index 7784b99..7ef51fa 100644
--- a/filtering/patricia_trie.go
+++ b/filtering/patricia_trie.go
@@ -171,7 +171,7 @@ func (ptn *PatriciaTrieNode) UnmarshalBinary(data []byte) (err error) {
 	if err = dec.Decode(&hasZero); err != nil {
 		return
 	}
-	if hasOne {
+	if hasZero {
 		err = dec.Decode(&ptn.zero)
 	} else {
 		ptn.zero = nil
-- 
2.43.0


From 957643315f34a3863eb806238acd415250bc45b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:13:14 +0000
Subject: [PATCH 07/44] fix: splay a nested node within its own chain

A match in a nested subset (not its first node) was moved to the root of
the whole tree: later searches tested it against every tag and no longer
found it, or its former root, where they belong.
---
 filtering/splay_tree.go | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/filtering/splay_tree.go b/filtering/splay_tree.go
index 6e9b33a..adea308 100644
--- a/filtering/splay_tree.go
+++ b/filtering/splay_tree.go
@@ -76,7 +76,7 @@ func (st *SplayTree) Name() string {
 
 // Search returns a pureIdentity of the llrp.ReadEvent if found any subscription without err
 func (st *SplayTree) Search(re llrp.ReadEvent) (pureIdentity string, reportURIs []string, err error) {
-	reportURIs = st.root.splaySearch(st, nil, re.ID)
+	reportURIs = st.root.splaySearch(&st.root, nil, re.ID)
 	if len(reportURIs) == 0 {
 		return pureIdentity, reportURIs, fmt.Errorf("no match found for %v", re.ID)
 	}
@@ -316,27 +316,29 @@ func (stn *SplayTreeNode) print(writer io.Writer, indent int) {
 	}
 }
 
-func (stn *SplayTreeNode) splaySearch(st *SplayTree, parent *SplayTreeNode, id []byte) []string {
+// splaySearch searches the nodes of one mismatchNext chain, of which head points to the first,
+// and moves the matching node to the head of the chain
+func (stn *SplayTreeNode) splaySearch(head **SplayTreeNode, parent *SplayTreeNode, id []byte) []string {
 	matches := []string{}
 	if stn.filterObject.Match(id) {
 		matches = append(matches, stn.reportURI)
 		if stn.matchNext != nil {
 			// Do Search & Splay in the subsets
-			matches = append(matches, stn.matchNext.splaySearch(st, nil, id)...)
+			matches = append(matches, stn.matchNext.splaySearch(&stn.matchNext, nil, id)...)
 		}
 		// Do Splay
 		// 0. Check if this is the root node, do nothing if so
 		if parent != nil {
 			// 1. Remove this node by connecting parent to the next mismatchNext node
 			parent.mismatchNext = stn.mismatchNext
-			// 2. Insert self to root
-			stn.mismatchNext = st.root
-			st.root = stn
+			// 2. Insert self to the head of this chain
+			stn.mismatchNext = *head
+			*head = stn
 		}
 		return matches
 	}
 	if stn.mismatchNext != nil {
-		return stn.mismatchNext.splaySearch(st, stn, id)
+		return stn.mismatchNext.splaySearch(head, stn, id)
 	}
 	return matches
 }
-- 
2.43.0


From 449fcb5851ca2ee58d2acbf9a78b3c18414149b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:13:15 +0000
Subject: [PATCH 08/44] fix: do not report an empty destination for aggregation
 nodes

After deleting a pattern with several subsets, tags matching only the
aggregation node were reported to "".
---
 filtering/splay_tree.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/filtering/splay_tree.go b/filtering/splay_tree.go
index adea308..a7fdde8 100644
--- a/filtering/splay_tree.go
+++ b/filtering/splay_tree.go
@@ -321,7 +321,9 @@ func (stn *SplayTreeNode) print(writer io.Writer, indent int) {
 func (stn *SplayTreeNode) splaySearch(head **SplayTreeNode, parent *SplayTreeNode, id []byte) []string {
 	matches := []string{}
 	if stn.filterObject.Match(id) {
-		matches = append(matches, stn.reportURI)
+		if len(stn.reportURI) != 0 { // not an aggregation node
+			matches = append(matches, stn.reportURI)
+		}
 		if stn.matchNext != nil {
 			// Do Search & Splay in the subsets
 			matches = append(matches, stn.matchNext.splaySearch(&stn.matchNext, nil, id)...)
-- 
2.43.0


From 5e760485281031fa02f990c1d02abe4d3b8700a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:13:17 +0000
Subject: [PATCH 09/44] fix: build a usable splay tree from no subscription

The root had no filter, so the first search or addition panicked.
---
 filtering/splay_tree.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/filtering/splay_tree.go b/filtering/splay_tree.go
index a7fdde8..e7306ff 100644
--- a/filtering/splay_tree.go
+++ b/filtering/splay_tree.go
@@ -212,6 +212,9 @@ func (stn *SplayTreeNode) add(fs string, reportURI string) {
 func (stn *SplayTreeNode) build(sub ByteSubscriptions) *SplayTreeNode {
 	current := stn
 	subscriptionSize := len(sub.Keys())
+	if subscriptionSize == 0 { // an aggregation node, where subscriptions can be added later
+		current.filterObject = NewFilter("", 0)
+	}
 	for i, fs := range sub.Keys() {
 		current.filterObject = NewFilter(fs, sub[fs].Offset)
 		current.reportURI = sub[fs].ReportURI
-- 
2.43.0


From acf97239ab771fcc41edda39263fcb76b1c33b29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:13:19 +0000
Subject: [PATCH 10/44] fix: nest existing subsets when adding a shorter prefix
 to the splay tree

The shorter prefix became a sibling of its subsets, and a tag matching
both was reported for whichever came first only.
---
 filtering/splay_tree.go | 23 +++++++++++++++++++++++
 1 file changed, 23 insertions(+)

diff --git a/filtering/splay_tree.go b/filtering/splay_tree.go
index e7306ff..5a16989 100644
--- a/filtering/splay_tree.go
+++ b/filtering/splay_tree.go
@@ -197,6 +197,8 @@ func (stn *SplayTreeNode) add(fs string, reportURI string) {
 				stn.matchNext.add(fs[stn.filterObject.Size:], reportURI)
 			}
 		}
+	} else if strings.HasPrefix(stn.filterObject.String, fs) { // the current node is a subset of fs
+		stn.addSuperset(fs, reportURI)
 	} else { // doesn't match with the current node, traverse the mismatchNext node
 		if stn.mismatchNext == nil { // there's no mismatchNext node
 			stn.mismatchNext = &SplayTreeNode{}
@@ -209,6 +211,27 @@ func (stn *SplayTreeNode) add(fs string, reportURI string) {
 	return
 }
 
+// addSuperset makes this node fs, and nests what it was and the following nodes captured by fs in it
+func (stn *SplayTreeNode) addSuperset(fs string, reportURI string) {
+	subset := *stn
+	subset.filterObject = NewFilter(subset.filterObject.String[len(fs):], subset.filterObject.Offset+len(fs))
+	subset.mismatchNext = nil
+	stn.filterObject = NewFilter(fs, stn.filterObject.Offset)
+	stn.reportURI = reportURI
+	stn.matchNext = &subset
+	for prev := stn; prev.mismatchNext != nil; {
+		next := prev.mismatchNext
+		if !strings.HasPrefix(next.filterObject.String, fs) {
+			prev = next
+			continue
+		}
+		prev.mismatchNext = next.mismatchNext
+		next.filterObject = NewFilter(next.filterObject.String[len(fs):], next.filterObject.Offset+len(fs))
+		next.mismatchNext = stn.matchNext
+		stn.matchNext = next
+	}
+}
+
 func (stn *SplayTreeNode) build(sub ByteSubscriptions) *SplayTreeNode {
 	current := stn
 	subscriptionSize := len(sub.Keys())
-- 
2.43.0


From a5c718e05881664c7ef5d1b11163224ea279a481 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:13:21 +0000
Subject: [PATCH 11/44] fix: delete the last node of the splay tree, and only
 the given subscription

The only node could not be deleted, and deleting a pattern under one
reportURI removed it for another one (or dissolved a node that holds no
subscription).
---
 filtering/splay_tree.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/filtering/splay_tree.go b/filtering/splay_tree.go
index 5a16989..705a55e 100644
--- a/filtering/splay_tree.go
+++ b/filtering/splay_tree.go
@@ -262,7 +262,11 @@ func (stn *SplayTreeNode) build(sub ByteSubscriptions) *SplayTreeNode {
 func (stn *SplayTreeNode) delete(fs string, reportURI string) {
 	if strings.HasPrefix(fs, stn.filterObject.String) { // fs \in stn.FilterObject.String
 		if fs == stn.filterObject.String { // this node is to delete
-			if stn.matchNext == nil && stn.mismatchNext == nil { // something wrong
+			if stn.reportURI != reportURI { // subscribed by someone else, or not at all
+				return
+			}
+			if stn.matchNext == nil && stn.mismatchNext == nil { // the last node of the tree, keep it as an aggregation node
+				stn.reportURI = ""
 			} else if stn.matchNext != nil { // if there is subset, keep the node as an aggregation node
 				if stn.matchNext.mismatchNext != nil {
 					stn.reportURI = ""
@@ -280,6 +284,7 @@ func (stn *SplayTreeNode) delete(fs string, reportURI string) {
 		} else { // it's a subset (matching branch) of the current node, and there's no matchNext node
 			if stn.matchNext != nil { // if there's a matchNext node
 				if fs[stn.filterObject.Size:] == stn.matchNext.filterObject.String &&
+					stn.matchNext.reportURI == reportURI &&
 					stn.matchNext.matchNext == nil && stn.matchNext.mismatchNext == nil { // the matchNext is to delete
 					stn.matchNext = nil
 				} else {
@@ -290,6 +295,7 @@ func (stn *SplayTreeNode) delete(fs string, reportURI string) {
 	} else { // doesn't match with the current node, traverse the mismatchNext node
 		if stn.mismatchNext != nil { // there's a mismatchNext node
 			if fs == stn.mismatchNext.filterObject.String &&
+				stn.mismatchNext.reportURI == reportURI &&
 				stn.mismatchNext.matchNext == nil && stn.mismatchNext.mismatchNext == nil {
 				stn.mismatchNext = nil
 			} else {
-- 
2.43.0


From 99915505571a55b09dc042dc9fc1a0304a5e1165 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:13:22 +0000
Subject: [PATCH 12/44] fix: restoring an engine replaces what it held

A list kept its previous filters, and trie and tree nodes mixed the zero
fields of the previous filters with the restored ones.
---
 filtering/list.go          | 8 ++++++--
 filtering/patricia_trie.go | 6 +++++-
 filtering/splay_tree.go    | 6 +++++-
 3 files changed, 16 insertions(+), 4 deletions(-)

diff --git a/filtering/list.go b/filtering/list.go
index 1a9a8e1..1d7dd38 100644
--- a/filtering/list.go
+++ b/filtering/list.go
@@ -135,6 +135,7 @@ func (list *List) UnmarshalBinary(data []byte) (err error) {
 		return
 	}
 
+	filters := ListFilters{}
 	for i := 0; i < listSize; i++ {
 		em := ExactMatch{}
 		// Notify
@@ -142,9 +143,12 @@ func (list *List) UnmarshalBinary(data []byte) (err error) {
 			return
 		}
 		// Filter
-		err = dec.Decode(&em.filter)
-		list.filters = append(list.filters, &em)
+		if err = dec.Decode(&em.filter); err != nil {
+			return
+		}
+		filters = append(filters, &em)
 	}
+	list.filters = filters
 
 	// tdt.Core
 	list.tdtCore = tdt.NewCore()
diff --git a/filtering/patricia_trie.go b/filtering/patricia_trie.go
index 7ef51fa..b87dac3 100644
--- a/filtering/patricia_trie.go
+++ b/filtering/patricia_trie.go
@@ -95,7 +95,11 @@ func (pt *PatriciaTrie) UnmarshalBinary(data []byte) (err error) {
 	}
 
 	// Decode PatriciaTrieNode
-	err = dec.Decode(&pt.root)
+	var root *PatriciaTrieNode // fresh, since gob leaves what is zero in the data as it was
+	if err = dec.Decode(&root); err != nil {
+		return
+	}
+	pt.root = root
 
 	// tdt.Core
 	pt.tdtCore = tdt.NewCore()
diff --git a/filtering/splay_tree.go b/filtering/splay_tree.go
index 705a55e..547956a 100644
--- a/filtering/splay_tree.go
+++ b/filtering/splay_tree.go
@@ -95,7 +95,11 @@ func (st *SplayTree) UnmarshalBinary(data []byte) (err error) {
 	}
 
 	// Decode SplayTreeNode
-	err = dec.Decode(&st.root)
+	var root *SplayTreeNode // fresh, since gob leaves what is zero in the data as it was
+	if err = dec.Decode(&root); err != nil {
+		return
+	}
+	st.root = root
 
 	// tdt.Core
 	st.tdtCore = tdt.NewCore()
-- 
2.43.0


From 44ffd7b2426a1479c302ed6aab3ef395c14021fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:13:57 +0000
Subject: [PATCH 13/44] fix: update the legacy engine's own patterns

DeleteSubscription looked patterns up in a stale slice, so deleting
several patterns of one reportURI left some in place or duplicated
others; AddSubscription kept the caller's slice.
---
 filtering/legacy_engine.go | 16 ++++++----------
 1 file changed, 6 insertions(+), 10 deletions(-)

diff --git a/filtering/legacy_engine.go b/filtering/legacy_engine.go
index 9b65599..188e6eb 100644
--- a/filtering/legacy_engine.go
+++ b/filtering/legacy_engine.go
@@ -19,13 +19,9 @@ type LegacyEngine struct {
 // AddSubscription adds a set of subscriptions if not exists yet
 func (le *LegacyEngine) AddSubscription(sub Subscriptions) {
 	for _, f := range sub.Keys() {
-		if reportURIs, ok := le.filters[f]; !ok {
-			le.filters[f] = sub[f]
-		} else {
-			for _, dest := range sub[f] {
-				if stringIndexInSlice(dest, reportURIs) < 0 {
-					le.filters[f] = append(le.filters[f], dest)
-				}
+		for _, dest := range sub[f] {
+			if stringIndexInSlice(dest, le.filters[f]) < 0 {
+				le.filters[f] = append(le.filters[f], dest)
 			}
 		}
 	}
@@ -34,12 +30,12 @@ func (le *LegacyEngine) AddSubscription(sub Subscriptions) {
 // DeleteSubscription deletes a set of subscriptions if already exist
 func (le *LegacyEngine) DeleteSubscription(sub Subscriptions) {
 	for _, f := range sub.Keys() {
-		if reportURIs, ok := le.filters[f]; !ok {
+		if _, ok := le.filters[f]; !ok {
 			continue
 		} else {
 			for _, dest := range sub[f] {
-				if i := stringIndexInSlice(dest, reportURIs); i > -1 {
-					le.filters[f] = append(reportURIs[:i], reportURIs[i+1:]...)
+				for i := stringIndexInSlice(dest, le.filters[f]); i > -1; i = stringIndexInSlice(dest, le.filters[f]) {
+					le.filters[f] = append(le.filters[f][:i], le.filters[f][i+1:]...)
 				}
 			}
 			if len(le.filters[f]) == 0 {
-- 
2.43.0


From 01239b0a86cbcc5c2633a948fd4d2a8d631e58ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:13:59 +0000
Subject: [PATCH 14/44] fix: restore the legacy engine

UnmarshalBinary looped over the wrong size and dropped what it decoded.
---
 filtering/legacy_engine.go | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/filtering/legacy_engine.go b/filtering/legacy_engine.go
index 188e6eb..d8d12db 100644
--- a/filtering/legacy_engine.go
+++ b/filtering/legacy_engine.go
@@ -148,6 +148,7 @@ func (le *LegacyEngine) UnmarshalBinary(data []byte) (err error) {
 		return
 	}
 
+	filters := Subscriptions{}
 	for i := 0; i < legacyEngineSize; i++ {
 		var f string
 		// filter
@@ -159,13 +160,17 @@ func (le *LegacyEngine) UnmarshalBinary(data []byte) (err error) {
 			return
 		}
 		var reportURIs []string
-		for j := 0; j < legacyEngineSize; j++ {
+		for j := 0; j < reportURIsSize; j++ {
 			// reportURI
 			var dest string
-			err = dec.Decode(&dest)
+			if err = dec.Decode(&dest); err != nil {
+				return
+			}
 			reportURIs = append(reportURIs, dest)
 		}
+		filters[f] = reportURIs
 	}
+	le.filters = filters
 
 	// tdt.Core
 	le.tdtCore = tdt.NewCore()
-- 
2.43.0


From 52c35e3545879a6337ed331fb5a4ac0a43dc2516 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:01 +0000
Subject: [PATCH 15/44] fix: a pattern of unknown type matches nothing in the
 legacy engine

Without fields it was compared as an empty prefix and matched every tag.
---
 filtering/legacy_engine.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/filtering/legacy_engine.go b/filtering/legacy_engine.go
index d8d12db..98fce25 100644
--- a/filtering/legacy_engine.go
+++ b/filtering/legacy_engine.go
@@ -120,6 +120,8 @@ func (le *LegacyEngine) Search(re llrp.ReadEvent) (pureIdentity string, reportUR
 				pattern = patternType + ":" + strings.Replace(pattern, ".", "", -1)
 			case "iso17365":
 				pattern = patternType + ":" + strings.Replace(pattern, ".", "", -1)
+			default: // unknown type
+				continue
 			}
 			if strings.HasPrefix(strings.TrimPrefix(pureIdentity, "urn:epc:id:"), pattern) {
 				reportURIs = append(reportURIs, reportURI)
-- 
2.43.0


From 7390e21a59a358928a4310accb24ae2b4ad37014 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:03 +0000
Subject: [PATCH 16/44] fix: compute the container check digit from the
 container number

The data identifier was taken for the owner code, so a fully specified
iso17363 pattern was always rejected.
---
 tdt/iso.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tdt/iso.go b/tdt/iso.go
index 496bb84..8fdd5bb 100644
--- a/tdt/iso.go
+++ b/tdt/iso.go
@@ -79,7 +79,7 @@ func NewPrefixFilterISO17363(fields []string) (string, error) {
 	} else if 6 < len(csn) {
 		return "", fmt.Errorf("Invalid csn: %v", csn)
 	}
-	cd, err := getISO6346CD(fields[0] + fields[1] + csn)
+	cd, err := getISO6346CD(fields[1] + fields[2] + csn)
 	if err != nil {
 		return "", err
 	}
-- 
2.43.0


From dac58ce39338f3ff4ea25b10a4d53e59db75af6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:02 +0000
Subject: [PATCH 17/44] fix: return an error for tags that cannot be translated

An empty id, or a company prefix, item reference, extension or asset type
with more digits than its partition allows, made Translate panic; unknown
headers and the reserved partition gave a broken identity and no error.
---
 tdt/core.go | 48 ++++++++++++++++++++++++++++++++++++++++++++++++
 1 file changed, 48 insertions(+)

diff --git a/tdt/core.go b/tdt/core.go
index f4e3877..d876d6a 100644
--- a/tdt/core.go
+++ b/tdt/core.go
@@ -81,9 +81,54 @@ func (c *Core) Translate(pc []byte, id []byte) (string, error) {
 	return c.buildProprietary(id)
 }
 
+// validateEPC96 returns an error unless id is a 96-bit EPC of a known scheme and partition
+// with the values in the digits allowed there
+func validateEPC96(id []byte) error {
+	if len(id) != 12 {
+		return errors.New("Invalid ID")
+	}
+	var pt PartitionTable
+	var refBits, refDigits PartitionTableKey
+	switch id[0] {
+	case 48:
+		pt, refBits, refDigits = SGTIN96PartitionTable, IRBits, IRDigits
+	case 49:
+		pt, refBits, refDigits = SSCC96PartitionTable, EBits, EDigits
+	case 51:
+		pt, refBits, refDigits = GRAI96PartitionTable, ATBits, ATDigits
+	case 52:
+		pt, refBits, refDigits = GIAI96PartitionTable, IARBits, IARDigits
+	default:
+		return fmt.Errorf("unknown EPC header: %v", id[0])
+	}
+	fits := func(offset int, bits int, digits int) bool {
+		if digits == 0 { // not a part of the PureIdentity
+			return true
+		}
+		v := new(big.Int).Rsh(new(big.Int).SetBytes(id), uint(96-offset-bits))
+		v.And(v, new(big.Int).Sub(new(big.Int).Lsh(big.NewInt(1), uint(bits)), big.NewInt(1)))
+		return v.Cmp(new(big.Int).Exp(big.NewInt(10), big.NewInt(int64(digits)), nil)) < 0
+	}
+	for cpDigits, pr := range pt {
+		if pr[PValue] != int((id[1]&28)>>2) { // 28: 00011100
+			continue
+		}
+		// 14 bits for the header, the filter and the partition
+		if !fits(14, pr[CPBits], cpDigits) || !fits(14+pr[CPBits], pr[refBits], pr[refDigits]) {
+			return fmt.Errorf("value out of range in EPC: %v", id)
+		}
+		return nil
+	}
+	return fmt.Errorf("unknown partition in EPC: %v", id)
+}
+
 func (c *Core) buildEPC(id []byte) (string, error) {
 	urn := ""
 
+	if err := validateEPC96(id); err != nil {
+		return "", err
+	}
+
 	// EPC Header
 	switch id[0] {
 	case 48: /* ------------- SGTIN-96 00110000 ------------- */
@@ -831,6 +876,9 @@ func (c *Core) buildUII(id []byte, afi byte) (string, error) {
 	if err != nil {
 		return "", err
 	}
+	if len(sid) == 0 {
+		return "", errors.New("Invalid ID")
+	}
 
 	urn += sid
 	return urn, nil
-- 
2.43.0


From cbe89bc9302816f8c7ce228d94f2961d2e0e4875 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:04 +0000
Subject: [PATCH 18/44] fix: reject pattern fields that cannot be encoded

A company prefix of the wrong length, a field that is empty (random bits
were drawn for it), not a number, too large for its bits or not in the
6-bit set gave a filter that captures unrelated tags.
---
 tdt/epc.go | 51 +++++++++++++++++++++++++++++++++++++++++++++++++++
 tdt/iso.go | 23 +++++++++++++++++++++++
 2 files changed, 74 insertions(+)

diff --git a/tdt/epc.go b/tdt/epc.go
index 7bc64d3..b68ff9f 100644
--- a/tdt/epc.go
+++ b/tdt/epc.go
@@ -172,6 +172,32 @@ func getSerial(s string, serialLength int) (serial []rune) {
 	return serial
 }
 
+// validateFields returns an error unless the given leading fields (filter, companyPrefix, and the rest)
+// are decimal numbers that fit in their bits; restBits gives the bits of the fields after companyPrefix
+func validateFields(fields []string, pt PartitionTable, restBits func(map[PartitionTableKey]int) []int) error {
+	for i, field := range fields {
+		bits := 63
+		switch i {
+		case 0:
+			bits = 3
+		case 1:
+			if _, ok := pt[len(field)]; !ok {
+				return fmt.Errorf("invalid companyPrefix: %q", field)
+			}
+		default:
+			rest := restBits(pt[len(fields[1])])
+			if i-2 >= len(rest) {
+				return fmt.Errorf("unknown fields provided %q", fields)
+			}
+			bits = rest[i-2]
+		}
+		if n, err := strconv.ParseUint(field, 10, 63); err != nil || n>>uint(bits) != 0 {
+			return fmt.Errorf("invalid field %q in %q", field, fields)
+		}
+	}
+	return nil
+}
+
 // NewPrefixFilterGIAI96 takes field values in a slice and return a prefix filter string
 func NewPrefixFilterGIAI96(fields []string) (string, error) {
 	nFields := len(fields) // filter, companyPrefix, indivisualAssetReference
@@ -179,6 +205,13 @@ func NewPrefixFilterGIAI96(fields []string) (string, error) {
 		return "", fmt.Errorf("wrong fields: %q", fields)
 	}
 
+	// an individual asset reference longer than the partition allows makes a filter longer than any tag
+	if err := validateFields(fields, GIAI96PartitionTable, func(_ map[PartitionTableKey]int) []int {
+		return []int{63}
+	}); err != nil {
+		return "", err
+	}
+
 	// filter
 	filter := getFilter(fields[0])
 	if nFields == 1 {
@@ -208,6 +241,12 @@ func NewPrefixFilterGRAI96(fields []string) (string, error) {
 		return "", fmt.Errorf("wrong fields: %q", fields)
 	}
 
+	if err := validateFields(fields, GRAI96PartitionTable, func(pr map[PartitionTableKey]int) []int {
+		return []int{pr[ATBits], 38}
+	}); err != nil {
+		return "", err
+	}
+
 	// filter
 	filter := getFilter(fields[0])
 	if nFields == 1 {
@@ -243,6 +282,12 @@ func NewPrefixFilterSGTIN96(fields []string) (string, error) {
 		return "", fmt.Errorf("wrong fields: %q", fields)
 	}
 
+	if err := validateFields(fields, SGTIN96PartitionTable, func(pr map[PartitionTableKey]int) []int {
+		return []int{pr[IRBits], 38}
+	}); err != nil {
+		return "", err
+	}
+
 	// filter
 	filter := getFilter(fields[0])
 	if nFields == 1 {
@@ -278,6 +323,12 @@ func NewPrefixFilterSSCC96(fields []string) (string, error) {
 		return "", fmt.Errorf("wrong fields: %q", fields)
 	}
 
+	if err := validateFields(fields, SSCC96PartitionTable, func(pr map[PartitionTableKey]int) []int {
+		return []int{pr[EBits]}
+	}); err != nil {
+		return "", err
+	}
+
 	// filter
 	filter := getFilter(fields[0])
 	if nFields == 1 {
diff --git a/tdt/iso.go b/tdt/iso.go
index 8fdd5bb..554fa57 100644
--- a/tdt/iso.go
+++ b/tdt/iso.go
@@ -45,6 +45,21 @@ func pad6BitEncodingRuneSlice(bs []rune) ([]rune, int) {
 	return bs, length
 }
 
+// validate6BitFields returns an error if a field is empty or has a character without 6-bit encoding
+func validate6BitFields(fields []string) error {
+	for _, field := range fields {
+		if len(field) == 0 {
+			return fmt.Errorf("empty field in %q", fields)
+		}
+		for _, r := range field {
+			if r <= ' ' || '_' < r { // the space is for padding
+				return fmt.Errorf("invalid field %q in %q", field, fields)
+			}
+		}
+	}
+	return nil
+}
+
 // NewPrefixFilterISO17363 takes fields and return the prefix filter in string
 func NewPrefixFilterISO17363(fields []string) (string, error) {
 	nFields := len(fields) // ownerCode, equipmentIdentifier, containerSerialNumber
@@ -53,6 +68,10 @@ func NewPrefixFilterISO17363(fields []string) (string, error) {
 		return "", fmt.Errorf("wrong fields: %q", fields)
 	}
 
+	if err := validate6BitFields(fields); err != nil {
+		return "", err
+	}
+
 	// dataIdentifier
 	dataIdentifier := binutil.ParseRuneSliceTo6BinRuneSlice([]rune(fields[0]))
 	if nFields == 1 {
@@ -99,6 +118,10 @@ func NewPrefixFilterISO17365(fields []string) (string, error) {
 		return "", fmt.Errorf("wrong fields: %q", fields)
 	}
 
+	if err := validate6BitFields(fields); err != nil {
+		return "", err
+	}
+
 	// dataIdentifier
 	dataIdentifier := binutil.ParseRuneSliceTo6BinRuneSlice([]rune(fields[0]))
 	if nFields == 1 {
-- 
2.43.0


From fe0eaa7ee7a2f1b38dae54484a0a593e75c4941e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:07 +0000
Subject: [PATCH 19/44] fix: refuse a container number with invalid characters

They counted as -1, and the check digit could become negative, two
characters long.
---
 scheme/iso.go | 3 +++
 tdt/iso.go    | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/scheme/iso.go b/scheme/iso.go
index edfb2f1..622af3f 100644
--- a/scheme/iso.go
+++ b/scheme/iso.go
@@ -19,6 +19,9 @@ func GetISO6346CD(cn string) (int, error) {
 	d := 0.5
 	for i := 0; i < 10; i++ {
 		d *= 2
+		if !strings.ContainsRune("0123456789ABCDEFGHIJKLMNOPQRSTUVWXYZ", rune(cn[i])) {
+			return 0, errors.New("Invalid ISO6346 code provided")
+		}
 		n += d * float64(strings.Index("0123456789A?BCDEFGHIJK?LMNOPQRSTU?VWXYZ", string(cn[i])))
 	}
 	return (int(n) - int(n/11)*11) % 10, nil
diff --git a/tdt/iso.go b/tdt/iso.go
index 554fa57..44b69e5 100644
--- a/tdt/iso.go
+++ b/tdt/iso.go
@@ -22,6 +22,9 @@ func getISO6346CD(cn string) (int, error) {
 	d := 0.5
 	for i := 0; i < 10; i++ {
 		d *= 2
+		if !strings.ContainsRune("0123456789ABCDEFGHIJKLMNOPQRSTUVWXYZ", rune(cn[i])) {
+			return 0, fmt.Errorf("Invalid ISO6346 code provided: %v", cn)
+		}
 		n += d * float64(strings.Index("0123456789A?BCDEFGHIJK?LMNOPQRSTU?VWXYZ", string(cn[i])))
 	}
 	return (int(n) - int(n/11)*11) % 10, nil
-- 
2.43.0


From bf17fd749b31c634e2a59cbdaa09d845d29f729f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:09 +0000
Subject: [PATCH 20/44] fix: generate random field values within the digits of
 the scheme

The cap 10^digits was inclusive, so one value too many could be drawn
(e.g. item reference 10 for one digit).
---
 scheme/epc.go | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/scheme/epc.go b/scheme/epc.go
index ec0b336..a7b2a60 100644
--- a/scheme/epc.go
+++ b/scheme/epc.go
@@ -74,6 +74,15 @@ var SSCC96PartitionTable = PartitionTable{
 	6:  {PValue: 6, CPBits: 20, EBits: 38, EDigits: 11},
 }
 
+// generateNDigitRandomBinRuneSlice returns n-length random binary string for a decimal number of the digits
+func generateNDigitRandomBinRuneSlice(n int, digits int) []rune {
+	if digits == 0 { // no value, 0 would mean no cap limit below
+		return binutil.GenerateNLengthZeroPaddingRuneSlice(n)
+	}
+	bs, _ := binutil.GenerateNLengthRandomBinRuneSlice(n, uint(math.Pow(float64(10), float64(digits)))-1)
+	return bs
+}
+
 // GetAssetType returns Asset Type as rune slice
 func GetAssetType(at string, pr map[PartitionTableKey]int) (assetType []rune) {
 	if at != "" {
@@ -83,7 +92,7 @@ func GetAssetType(at string, pr map[PartitionTableKey]int) (assetType []rune) {
 			assetType = append(leftPadding, assetType...)
 		}
 	} else {
-		assetType, _ = binutil.GenerateNLengthRandomBinRuneSlice(pr[ATBits], uint(math.Pow(float64(10), float64(pr[ATDigits]))))
+		assetType = generateNDigitRandomBinRuneSlice(pr[ATBits], pr[ATDigits])
 	}
 	return
 }
@@ -109,7 +118,7 @@ func GetExtension(e string, pr map[PartitionTableKey]int) (extension []rune) {
 			extension = append(leftPadding, extension...)
 		}
 	} else {
-		extension, _ = binutil.GenerateNLengthRandomBinRuneSlice(pr[EBits], uint(math.Pow(float64(10), float64(pr[EDigits]))))
+		extension = generateNDigitRandomBinRuneSlice(pr[EBits], pr[EDigits])
 	}
 	return
 }
@@ -135,7 +144,7 @@ func GetIndivisualAssetReference(iar string, pr map[PartitionTableKey]int) (indi
 			indivisualAssetReference = append(leftPadding, indivisualAssetReference...)
 		}
 	} else {
-		indivisualAssetReference, _ = binutil.GenerateNLengthRandomBinRuneSlice(pr[IARBits], uint(math.Pow(float64(10), float64(pr[IARDigits]))))
+		indivisualAssetReference = generateNDigitRandomBinRuneSlice(pr[IARBits], pr[IARDigits])
 	}
 	return
 }
@@ -150,7 +159,7 @@ func GetItemReference(ir string, pr map[PartitionTableKey]int) (itemReference []
 			itemReference = append(leftPadding, itemReference...)
 		}
 	} else {
-		itemReference, _ = binutil.GenerateNLengthRandomBinRuneSlice(pr[IRBits], uint(math.Pow(float64(10), float64(pr[IRDigits]))))
+		itemReference = generateNDigitRandomBinRuneSlice(pr[IRBits], pr[IRDigits])
 	}
 	return
 }
-- 
2.43.0


From 7115fd565906074f2c867e03b1154051e3311dd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:57 +0000
Subject: [PATCH 21/44] fix: data races in the engine factory and its
 generators

The current engine name was read and written without synchronisation, and
the match counter was reset by the monitor while searches increment it:
matches counted between the report and the reset were lost.
---
 filtering/engine_factory.go   | 46 +++++++++++++++++++++++------------
 filtering/engine_generator.go |  6 ++---
 2 files changed, 34 insertions(+), 18 deletions(-)

diff --git a/filtering/engine_factory.go b/filtering/engine_factory.go
index 0bf2319..42e3695 100644
--- a/filtering/engine_factory.go
+++ b/filtering/engine_factory.go
@@ -25,12 +25,27 @@ type EngineFactory struct {
 	deploymentPriority   map[string]uint8
 	enginePerformance    sync.Map
 	currentEngineName    string
+	currentEngineMutex   sync.RWMutex // guards currentEngineName
 	statInterval         int
 }
 
+// getCurrentEngineName returns the name of the engine in use, empty if there is none yet
+func (ef *EngineFactory) getCurrentEngineName() string {
+	ef.currentEngineMutex.RLock()
+	defer ef.currentEngineMutex.RUnlock()
+	return ef.currentEngineName
+}
+
+// setCurrentEngineName sets the name of the engine in use
+func (ef *EngineFactory) setCurrentEngineName(name string) {
+	ef.currentEngineMutex.Lock()
+	defer ef.currentEngineMutex.Unlock()
+	ef.currentEngineName = name
+}
+
 // IsActive returns false if no engine is available
 func (ef *EngineFactory) IsActive() bool {
-	if len(ef.currentEngineName) == 0 {
+	if len(ef.getCurrentEngineName()) == 0 {
 		return false
 	}
 	return true
@@ -38,12 +53,13 @@ func (ef *EngineFactory) IsActive() bool {
 
 // Search is a wrapper for Search() with the current EngineGenerator
 func (ef *EngineFactory) Search(re llrp.ReadEvent) (string, []string, error) {
+	currentEngineName := ef.getCurrentEngineName()
 	for name, eg := range ef.productionSystem {
-		if name != ef.currentEngineName && eg.FSM.Is("ready") {
+		if name != currentEngineName && eg.FSM.Is("ready") {
 			_, _, _ = eg.Search(re)
 		}
 	}
-	return ef.productionSystem[ef.currentEngineName].Search(re)
+	return ef.productionSystem[currentEngineName].Search(re)
 }
 
 // NewEngineFactory returns the pointer to a new EngineFactory instance
@@ -104,13 +120,13 @@ func (ef *EngineFactory) Run() {
 					}
 					return true
 				})
-				if ef.currentEngineName != ename && len(ename) != 0 {
-					log.Printf("[EngineFactory] %s replaces the currentEngine %s due to performance", ename, ef.currentEngineName)
-					ef.currentEngineName = ename
+				if ef.getCurrentEngineName() != ename && len(ename) != 0 {
+					log.Printf("[EngineFactory] %s replaces the currentEngine %s due to performance", ename, ef.getCurrentEngineName())
+					ef.setCurrentEngineName(ename)
 				}
 				ef.mainChannel <- ManagementMessage{
 					Type:       SelectedEngine,
-					EngineName: ef.currentEngineName,
+					EngineName: ef.getCurrentEngineName(),
 				}
 			}
 		}
@@ -165,25 +181,25 @@ func (ef *EngineFactory) Run() {
 				*/
 			case OnEngineGenerated:
 				log.Printf("[EngineFactory] received OnEngineGenerated from %s", msg.EngineGeneratorInstance.Engine.Name())
-				if len(ef.currentEngineName) == 0 {
+				if len(ef.getCurrentEngineName()) == 0 {
 					log.Printf("[EngineFactory] set %s as an initial engine", msg.EngineGeneratorInstance.Name)
-					ef.currentEngineName = msg.EngineGeneratorInstance.Name
+					ef.setCurrentEngineName(msg.EngineGeneratorInstance.Name)
 					ef.mainChannel <- ManagementMessage{
 						Type:       SelectedEngine,
-						EngineName: ef.currentEngineName,
+						EngineName: ef.getCurrentEngineName(),
 					}
 					continue
 				}
-				if ef.deploymentPriority[ef.currentEngineName] < ef.deploymentPriority[msg.EngineGeneratorInstance.Name] {
-					log.Printf("[EngineFactory] %s replaces the currentEngine %s", msg.EngineGeneratorInstance.Name, ef.currentEngineName)
-					ef.currentEngineName = msg.EngineGeneratorInstance.Name
+				if ef.deploymentPriority[ef.getCurrentEngineName()] < ef.deploymentPriority[msg.EngineGeneratorInstance.Name] {
+					log.Printf("[EngineFactory] %s replaces the currentEngine %s", msg.EngineGeneratorInstance.Name, ef.getCurrentEngineName())
+					ef.setCurrentEngineName(msg.EngineGeneratorInstance.Name)
 					ef.mainChannel <- ManagementMessage{
 						Type:       SelectedEngine,
-						EngineName: ef.currentEngineName,
+						EngineName: ef.getCurrentEngineName(),
 					}
 					continue
 				}
-				log.Printf("[EngineFactory] %s didn't replace the currentEngine %s", msg.EngineGeneratorInstance.Name, ef.currentEngineName)
+				log.Printf("[EngineFactory] %s didn't replace the currentEngine %s", msg.EngineGeneratorInstance.Name, ef.getCurrentEngineName())
 			case TrafficStatus:
 				ef.mainChannel <- msg // bypass the status message from generators to main
 			case EngineStatus:
diff --git a/filtering/engine_generator.go b/filtering/engine_generator.go
index 77f0d4b..d9a3ca1 100644
--- a/filtering/engine_generator.go
+++ b/filtering/engine_generator.go
@@ -9,6 +9,7 @@ import (
 	"context"
 	"log"
 	"math"
+	"sync/atomic"
 	"time"
 
 	//"reflect"
@@ -83,7 +84,7 @@ func NewEngineGenerator(name string, ec EngineConstructor, statInterval int, mc
 					Type:         TrafficStatus,
 					EngineName:   eg.Name,
 					EventCount:   eg.EventCount,
-					MatchedCount: eg.MatchedCount,
+					MatchedCount: atomic.SwapInt64(&eg.MatchedCount, 0),
 				}
 				throughput := float64(eg.EventCount) / float64(eg.totalTime)
 				if throughput != 0 && !math.IsNaN(throughput) {
@@ -95,7 +96,6 @@ func NewEngineGenerator(name string, ec EngineConstructor, statInterval int, mc
 					}
 				}
 				eg.EventCount = 0
-				eg.MatchedCount = 0
 				eg.totalTime = 0
 			}
 		}
@@ -109,7 +109,7 @@ func (eg *EngineGenerator) Search(re llrp.ReadEvent) (string, []string, error) {
 	defer timeTrack(time.Now(), eg.timePerEventChannel)
 	pureIdentity, reportURIs, err := eg.Engine.Search(re)
 	if len(reportURIs) != 0 {
-		eg.MatchedCount++
+		atomic.AddInt64(&eg.MatchedCount, 1)
 	}
 	return pureIdentity, reportURIs, err
 }
-- 
2.43.0


From af6e679e2e4d0feffaed359a3241cc33d2935849 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:59 +0000
Subject: [PATCH 22/44] fix: do not report an infinite throughput

When all the searches of an interval took less than a microsecond the
throughput was +Inf, which the stat manager cannot write and dies of.
---
 filtering/engine_generator.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/filtering/engine_generator.go b/filtering/engine_generator.go
index d9a3ca1..7bd2bd2 100644
--- a/filtering/engine_generator.go
+++ b/filtering/engine_generator.go
@@ -87,7 +87,7 @@ func NewEngineGenerator(name string, ec EngineConstructor, statInterval int, mc
 					MatchedCount: atomic.SwapInt64(&eg.MatchedCount, 0),
 				}
 				throughput := float64(eg.EventCount) / float64(eg.totalTime)
-				if throughput != 0 && !math.IsNaN(throughput) {
+				if throughput != 0 && !math.IsNaN(throughput) && !math.IsInf(throughput, 0) {
 					eg.CurrentThroughput = throughput
 					eg.managementChannel <- ManagementMessage{
 						Type:              EngineStatus,
-- 
2.43.0


From ead2c6e113f095d86205d40042b340d9549e8013 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:01 +0000
Subject: [PATCH 23/44] fix: return an error when no engine is available yet

EngineFactory.Search dereferenced a nil generator.
---
 filtering/engine_factory.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/filtering/engine_factory.go b/filtering/engine_factory.go
index 42e3695..216d821 100644
--- a/filtering/engine_factory.go
+++ b/filtering/engine_factory.go
@@ -7,6 +7,7 @@ package filtering
 
 import (
 	"context"
+	"errors"
 	"log"
 	"reflect"
 	"sync"
@@ -54,6 +55,9 @@ func (ef *EngineFactory) IsActive() bool {
 // Search is a wrapper for Search() with the current EngineGenerator
 func (ef *EngineFactory) Search(re llrp.ReadEvent) (string, []string, error) {
 	currentEngineName := ef.getCurrentEngineName()
+	if len(currentEngineName) == 0 {
+		return "", nil, errors.New("no engine is available yet")
+	}
 	for name, eg := range ef.productionSystem {
 		if name != currentEngineName && eg.FSM.Is("ready") {
 			_, _, _ = eg.Search(re)
-- 
2.43.0


From 161b0c656f01df8d5afc68d1c4d60aae41c9fb70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:03 +0000
Subject: [PATCH 24/44] fix: do not take the owner's messages back from the
 main channel

The factory received from the channel it sends to, so a selection it
announced could be dropped before the owner got it, and statistics could
be passed around in reverse order.
---
 filtering/engine_factory.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/filtering/engine_factory.go b/filtering/engine_factory.go
index 216d821..242a7f4 100644
--- a/filtering/engine_factory.go
+++ b/filtering/engine_factory.go
@@ -104,9 +104,9 @@ func NewEngineFactory(sub Subscriptions, statInterval int, mc chan ManagementMes
 // Run starts the engine factory to react with the ManagementChannel
 func (ef *EngineFactory) Run() {
 	log.Println("[EngineFactory] start running")
-	// set channels from EngineGenerators + main
-	cases := make([]reflect.SelectCase, len(ef.generatorChannels)+1)
-	for i, ch := range append(ef.generatorChannels, ef.mainChannel) {
+	// set channels from EngineGenerators; not main, what is sent there is for its owner to receive
+	cases := make([]reflect.SelectCase, len(ef.generatorChannels))
+	for i, ch := range ef.generatorChannels {
 		cases[i] = reflect.SelectCase{Dir: reflect.SelectRecv, Chan: reflect.ValueOf(ch)}
 	}
 	go func() {
-- 
2.43.0


From 6f6aca5ac382fd2f2cf7e45bec3e3a4cab04b38a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:04 +0000
Subject: [PATCH 25/44] fix: write each statistic once

The batch was never reset, so each write repeated all the points since
the start and the memory grew forever.
---
 monitoring/stat_manager.go | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/monitoring/stat_manager.go b/monitoring/stat_manager.go
index acfbe27..e4f91b3 100644
--- a/monitoring/stat_manager.go
+++ b/monitoring/stat_manager.go
@@ -31,15 +31,6 @@ func NewStatManager(mode string, addr string, user string, pass string, db strin
 	}
 	defer c.Close()
 
-	// create a new point batch
-	bp, err := client.NewBatchPoints(client.BatchPointsConfig{
-		Database:  db,
-		Precision: "ns",
-	})
-	if err != nil {
-		log.Fatal(err)
-	}
-
 	// make the stat message channel
 	smc := make(chan StatMessage)
 
@@ -95,6 +86,15 @@ func NewStatManager(mode string, addr string, user string, pass string, db strin
 			if err != nil {
 				log.Fatal(err)
 			}
+
+			// create a new point batch for each message, what is written stays in it
+			bp, err := client.NewBatchPoints(client.BatchPointsConfig{
+				Database:  db,
+				Precision: "ns",
+			})
+			if err != nil {
+				log.Fatal(err)
+			}
 			bp.AddPoint(pt)
 
 			// write the batch
-- 
2.43.0


From 99661f85e4a285282d885c2e87cde54b19e6136a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:06 +0000
Subject: [PATCH 26/44] fix: skip a traffic statistic without both values

---
 monitoring/stat_manager.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/monitoring/stat_manager.go b/monitoring/stat_manager.go
index e4f91b3..c0f230c 100644
--- a/monitoring/stat_manager.go
+++ b/monitoring/stat_manager.go
@@ -48,6 +48,9 @@ func NewStatManager(mode string, addr string, user string, pass string, db strin
 			// create a point
 			switch msg.Type {
 			case Traffic:
+				if len(msg.Value) < 2 {
+					continue
+				}
 				ingress, ok := msg.Value[0].(int64)
 				if !ok {
 					continue
-- 
2.43.0


From 18880d74949ebe19d2b589bc1e8bdb00f40416c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:07 +0000
Subject: [PATCH 27/44] fix: use the initial message ID given by the flag

It was read before the flags are parsed, and was always 0.
---
 cmd/gosstrak-fc/main.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/cmd/gosstrak-fc/main.go b/cmd/gosstrak-fc/main.go
index ff9734e..1bcde37 100644
--- a/cmd/gosstrak-fc/main.go
+++ b/cmd/gosstrak-fc/main.go
@@ -103,7 +103,7 @@ var (
 	cmdStart = app.Command("start", "Start the gosstrak-fc.")
 
 	// Current messageID
-	currentMessageID = uint32(*llrpInitialMessageID)
+	currentMessageID uint32
 )
 
 func getPackagePath() string {
@@ -117,6 +117,7 @@ func getPackagePath() string {
 
 func run() {
 	log.Println("initializing gosstrak-fc for master mode...")
+	currentMessageID = uint32(*llrpInitialMessageID)
 
 	// setup StatManager
 	var sm *monitoring.StatManager
-- 
2.43.0


From 37cc977256745971d2d71aab6623beaf201a1b13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:09 +0000
Subject: [PATCH 28/44] fix: refuse an LLRP message shorter than its header

The size of its value became negative: nearly 4 GiB were allocated, and
the following messages were read as the value.
---
 cmd/gosstrak-fc/main.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/cmd/gosstrak-fc/main.go b/cmd/gosstrak-fc/main.go
index 1bcde37..33e0967 100644
--- a/cmd/gosstrak-fc/main.go
+++ b/cmd/gosstrak-fc/main.go
@@ -276,6 +276,9 @@ func run() {
 		// starting from bit offset 0, hence, the message size is
 		// length - 10 bytes
 		var messageValue []byte
+		if binary.BigEndian.Uint32(length) < 10 {
+			log.Fatalf("Invalid LLRP Message Length: %v\n", binary.BigEndian.Uint32(length))
+		}
 		if messageSize := binary.BigEndian.Uint32(length) - 10; messageSize != 0 {
 			messageValue = make([]byte, binary.BigEndian.Uint32(length)-10)
 			_, err = io.ReadFull(conn, messageValue)
-- 
2.43.0


From d5139ad95ec3923fee31cd3e07343fbb91c10821 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:01:22 +0000
Subject: [PATCH 29/44] fix: keep accepting management connections after a
 failed accept

---
 cmd/gosstrak-fc/main.go | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/cmd/gosstrak-fc/main.go b/cmd/gosstrak-fc/main.go
index 33e0967..2011849 100644
--- a/cmd/gosstrak-fc/main.go
+++ b/cmd/gosstrak-fc/main.go
@@ -7,6 +7,7 @@ package main
 
 import (
 	"encoding/binary"
+	"errors"
 	"io"
 	"log"
 	"net"
@@ -186,10 +187,14 @@ func run() {
 		}
 		for {
 			c, err := managementListener.Accept()
-			if err != nil {
-				log.Fatal(err)
+			if errors.Is(err, net.ErrClosed) {
 				break
 			}
+			if err != nil { // e.g. too many open files, try again
+				log.Print(err)
+				time.Sleep(100 * time.Millisecond)
+				continue
+			}
 			spdyConn, err := spdystream.NewConnection(c, true)
 			if err != nil {
 				log.Print(err)
-- 
2.43.0


From 829c754274f18733109d6da49b42ece3e585f274 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:02:14 +0000
Subject: [PATCH 30/44] fix: close a management connection when its peer is
 done

---
 cmd/gosstrak-fc/main.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/cmd/gosstrak-fc/main.go b/cmd/gosstrak-fc/main.go
index 2011849..45a694a 100644
--- a/cmd/gosstrak-fc/main.go
+++ b/cmd/gosstrak-fc/main.go
@@ -200,7 +200,10 @@ func run() {
 				log.Print(err)
 				continue
 			}
-			go spdyConn.Serve(spdystream.MirrorStreamHandler)
+			go func() {
+				defer c.Close() // the peer is gone, do not wait for the garbage collector
+				spdyConn.Serve(spdystream.MirrorStreamHandler)
+			}()
 
 			// receiver, err := t.WaitReceiveChannel()
 			// if err != nil {
-- 
2.43.0


From 3a066c80a6a27cceb4f3d9c035c7193b7cb5c6bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:02:14 +0000
Subject: [PATCH 31/44] fix: keep accepting captures after a failed accept

---
 cmd/ale-ec/main.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/cmd/ale-ec/main.go b/cmd/ale-ec/main.go
index 4a2c505..c701990 100644
--- a/cmd/ale-ec/main.go
+++ b/cmd/ale-ec/main.go
@@ -6,9 +6,11 @@
 package main
 
 import (
+	"errors"
 	"log"
 	"net"
 	"os"
+	"time"
 
 	"github.com/alecthomas/kingpin/v2"
 	"github.com/moby/spdystream"
@@ -39,10 +41,14 @@ func main() {
 
 	for {
 		c, err := listener.Accept()
-		if err != nil {
-			log.Print(err)
+		if errors.Is(err, net.ErrClosed) {
 			break
 		}
+		if err != nil { // e.g. too many open files, try again
+			log.Print(err)
+			time.Sleep(100 * time.Millisecond)
+			continue
+		}
 
 		spdyConn, err := spdystream.NewConnection(c, true)
 		if err != nil {
-- 
2.43.0


From 64fc0cc55fdcff2ea29b52084ede08f67edaaac1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:02:14 +0000
Subject: [PATCH 32/44] fix: close a capture connection when its peer is done

---
 cmd/ale-ec/main.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/cmd/ale-ec/main.go b/cmd/ale-ec/main.go
index c701990..3085184 100644
--- a/cmd/ale-ec/main.go
+++ b/cmd/ale-ec/main.go
@@ -55,7 +55,10 @@ func main() {
 			log.Print(err)
 			continue
 		}
-		go spdyConn.Serve(spdystream.MirrorStreamHandler)
+		go func() {
+			defer c.Close() // the peer is gone, do not wait for the garbage collector
+			spdyConn.Serve(spdystream.MirrorStreamHandler)
+		}()
 
 		// go func() {
 		// 	for {
-- 
2.43.0


From 4d244b4167cf5d00567f8f2309654b082b1bc5b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:20:07 +0000
Subject: [PATCH 33/44] fix: refuse to encode a company prefix that no tag can
 have

---
 scheme/epc.go | 24 ++++++++++++++++++++++++
 1 file changed, 24 insertions(+)

diff --git a/scheme/epc.go b/scheme/epc.go
index a7b2a60..8f35db7 100644
--- a/scheme/epc.go
+++ b/scheme/epc.go
@@ -178,6 +178,18 @@ func GetSerial(s string, serialLength int) (serial []rune) {
 	return serial
 }
 
+// validateCompanyPrefix returns an error unless cp is a number of as many digits as some partition has
+func validateCompanyPrefix(cp string, pt PartitionTable) error {
+	_, ok := pt[len(cp)]
+	for _, r := range cp {
+		ok = ok && '0' <= r && r <= '9'
+	}
+	if !ok {
+		return fmt.Errorf("invalid companyPrefix: %q", cp)
+	}
+	return nil
+}
+
 // MakeGIAI96 generates GIAI-96
 func MakeGIAI96(pf bool, fv string, cp string, iar string) ([]byte, string, string, error) {
 	filter := GetFilter(fv)
@@ -192,6 +204,9 @@ func MakeGIAI96(pf bool, fv string, cp string, iar string) ([]byte, string, stri
 		}
 		return []byte{}, "", "", errors.New("companyPrefix is empty")
 	}
+	if err := validateCompanyPrefix(cp, GIAI96PartitionTable); err != nil {
+		return []byte{}, "", "", err
+	}
 	companyPrefix := GetCompanyPrefix(cp, GIAI96PartitionTable)
 	partition := []rune(fmt.Sprintf("%.3b", GIAI96PartitionTable[len(cp)][PValue]))
 
@@ -250,6 +265,9 @@ func MakeGRAI96(pf bool, fv string, cp string, at string, ser string) ([]byte, s
 		}
 		return []byte{}, "", "", errors.New("companyPrefix is empty")
 	}
+	if err := validateCompanyPrefix(cp, GRAI96PartitionTable); err != nil {
+		return []byte{}, "", "", err
+	}
 	companyPrefix := GetCompanyPrefix(cp, GRAI96PartitionTable)
 	partition := []rune(fmt.Sprintf("%.3b", GRAI96PartitionTable[len(cp)][PValue]))
 
@@ -316,6 +334,9 @@ func MakeSGTIN96(pf bool, fv string, cp string, ir string, ser string) ([]byte,
 		}
 		return []byte{}, "", "", errors.New("companyPrefix is empty")
 	}
+	if err := validateCompanyPrefix(cp, SGTIN96PartitionTable); err != nil {
+		return []byte{}, "", "", err
+	}
 	companyPrefix := GetCompanyPrefix(cp, SGTIN96PartitionTable)
 	partition := []rune(fmt.Sprintf("%.3b", SGTIN96PartitionTable[len(cp)][PValue]))
 
@@ -382,6 +403,9 @@ func MakeSSCC96(pf bool, fv string, cp string, ext string) ([]byte, string, stri
 		}
 		return []byte{}, "", "", errors.New("companyPrefix is empty")
 	}
+	if err := validateCompanyPrefix(cp, SSCC96PartitionTable); err != nil {
+		return []byte{}, "", "", err
+	}
 	companyPrefix := GetCompanyPrefix(cp, SSCC96PartitionTable)
 	partition := []rune(fmt.Sprintf("%.3b", SSCC96PartitionTable[len(cp)][PValue]))
 
-- 
2.43.0


From 5887dfc990ad2430cc1222f93dcd5b1524356f2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:43:30 +0000
Subject: [PATCH 34/44] fix: close a capture connection even if Serve never
 returns

---
 cmd/ale-ec/main.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/cmd/ale-ec/main.go b/cmd/ale-ec/main.go
index 3085184..1055c96 100644
--- a/cmd/ale-ec/main.go
+++ b/cmd/ale-ec/main.go
@@ -56,9 +56,10 @@ func main() {
 			continue
 		}
 		go func() {
-			defer c.Close() // the peer is gone, do not wait for the garbage collector
-			spdyConn.Serve(spdystream.MirrorStreamHandler)
+			<-spdyConn.CloseChan() // Serve may wait for its workers forever
+			c.Close()              // the peer is gone, do not wait for the garbage collector
 		}()
+		go spdyConn.Serve(spdystream.MirrorStreamHandler)
 
 		// go func() {
 		// 	for {
-- 
2.43.0


From 71f57c41c57d2ebc343e2eec2806ddb7d3a5b615 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:43:30 +0000
Subject: [PATCH 35/44] fix: close a management connection even if Serve never
 returns

---
 cmd/gosstrak-fc/main.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/cmd/gosstrak-fc/main.go b/cmd/gosstrak-fc/main.go
index 45a694a..3d146b1 100644
--- a/cmd/gosstrak-fc/main.go
+++ b/cmd/gosstrak-fc/main.go
@@ -201,9 +201,10 @@ func run() {
 				continue
 			}
 			go func() {
-				defer c.Close() // the peer is gone, do not wait for the garbage collector
-				spdyConn.Serve(spdystream.MirrorStreamHandler)
+				<-spdyConn.CloseChan() // Serve may wait for its workers forever
+				c.Close()              // the peer is gone, do not wait for the garbage collector
 			}()
+			go spdyConn.Serve(spdystream.MirrorStreamHandler)
 
 			// receiver, err := t.WaitReceiveChannel()
 			// if err != nil {
-- 
2.43.0


From 77ce0b973485907ed70fdb4fb87d95c9d20162c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:52:18 +0000
Subject: [PATCH 36/44] fix: report that the tag list could not be written

---
 cmd/gobtags/main.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/cmd/gobtags/main.go b/cmd/gobtags/main.go
index 1fb7478..bbd381e 100644
--- a/cmd/gobtags/main.go
+++ b/cmd/gobtags/main.go
@@ -41,7 +41,9 @@ func makeUint16PC(s string) (uint16, error) {
 func main() {
 	kingpin.MustParse(app.Parse(os.Args[1:]))
 	tags := llrp.LoadTagsFromCSV(*inFile)
-	binutil.Save(*outFile, &tags)
+	if err := binutil.Save(*outFile, &tags); err != nil {
+		log.Fatal(err)
+	}
 	/*
 		var tagBuf bytes.Buffer
 		enc := gob.NewEncoder(&tagBuf)
-- 
2.43.0


From 012e202ee1a87235d3f35a7771f4d02c354dda43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:11:27 +0000
Subject: [PATCH 37/44] fix: restore how random field values are drawn

bf17fd7 repaired nothing: the library draws values below the largest power
of two that is not above the cap, so the cap itself is never drawn.
---
 scheme/epc.go | 17 ++++-------------
 1 file changed, 4 insertions(+), 13 deletions(-)

diff --git a/scheme/epc.go b/scheme/epc.go
index 8f35db7..ad3665a 100644
--- a/scheme/epc.go
+++ b/scheme/epc.go
@@ -74,15 +74,6 @@ var SSCC96PartitionTable = PartitionTable{
 	6:  {PValue: 6, CPBits: 20, EBits: 38, EDigits: 11},
 }
 
-// generateNDigitRandomBinRuneSlice returns n-length random binary string for a decimal number of the digits
-func generateNDigitRandomBinRuneSlice(n int, digits int) []rune {
-	if digits == 0 { // no value, 0 would mean no cap limit below
-		return binutil.GenerateNLengthZeroPaddingRuneSlice(n)
-	}
-	bs, _ := binutil.GenerateNLengthRandomBinRuneSlice(n, uint(math.Pow(float64(10), float64(digits)))-1)
-	return bs
-}
-
 // GetAssetType returns Asset Type as rune slice
 func GetAssetType(at string, pr map[PartitionTableKey]int) (assetType []rune) {
 	if at != "" {
@@ -92,7 +83,7 @@ func GetAssetType(at string, pr map[PartitionTableKey]int) (assetType []rune) {
 			assetType = append(leftPadding, assetType...)
 		}
 	} else {
-		assetType = generateNDigitRandomBinRuneSlice(pr[ATBits], pr[ATDigits])
+		assetType, _ = binutil.GenerateNLengthRandomBinRuneSlice(pr[ATBits], uint(math.Pow(float64(10), float64(pr[ATDigits]))))
 	}
 	return
 }
@@ -118,7 +109,7 @@ func GetExtension(e string, pr map[PartitionTableKey]int) (extension []rune) {
 			extension = append(leftPadding, extension...)
 		}
 	} else {
-		extension = generateNDigitRandomBinRuneSlice(pr[EBits], pr[EDigits])
+		extension, _ = binutil.GenerateNLengthRandomBinRuneSlice(pr[EBits], uint(math.Pow(float64(10), float64(pr[EDigits]))))
 	}
 	return
 }
@@ -144,7 +135,7 @@ func GetIndivisualAssetReference(iar string, pr map[PartitionTableKey]int) (indi
 			indivisualAssetReference = append(leftPadding, indivisualAssetReference...)
 		}
 	} else {
-		indivisualAssetReference = generateNDigitRandomBinRuneSlice(pr[IARBits], pr[IARDigits])
+		indivisualAssetReference, _ = binutil.GenerateNLengthRandomBinRuneSlice(pr[IARBits], uint(math.Pow(float64(10), float64(pr[IARDigits]))))
 	}
 	return
 }
@@ -159,7 +150,7 @@ func GetItemReference(ir string, pr map[PartitionTableKey]int) (itemReference []
 			itemReference = append(leftPadding, itemReference...)
 		}
 	} else {
-		itemReference = generateNDigitRandomBinRuneSlice(pr[IRBits], pr[IRDigits])
+		itemReference, _ = binutil.GenerateNLengthRandomBinRuneSlice(pr[IRBits], uint(math.Pow(float64(10), float64(pr[IRDigits]))))
 	}
 	return
 }
-- 
2.43.0


From fa2f709d890a567e0c426e3190f4551bcfbae7dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:26:49 +0000
Subject: [PATCH 38/44] fix: leave no empty nodes behind when deleting from the
 tree engines

---
 filtering/patricia_trie.go | 18 ++++++++++++++++++
 filtering/splay_tree.go    | 23 +++++++++++++++++++++++
 2 files changed, 41 insertions(+)

diff --git a/filtering/patricia_trie.go b/filtering/patricia_trie.go
index b87dac3..5570899 100644
--- a/filtering/patricia_trie.go
+++ b/filtering/patricia_trie.go
@@ -318,6 +318,22 @@ func (ptn *PatriciaTrieNode) build(prefix string, bsub ByteSubscriptions) {
 	}
 }
 
+// compact returns the node to stand in the place of this one, which need not be the root:
+// a node that reports nothing is left out without a child, and joined with an only child
+func (ptn *PatriciaTrieNode) compact() *PatriciaTrieNode {
+	if len(ptn.reportURI) != 0 || (ptn.one != nil && ptn.zero != nil) {
+		return ptn
+	}
+	child := ptn.one
+	if child == nil {
+		child = ptn.zero
+	}
+	if child != nil {
+		child.filterObject = NewFilter(ptn.filterObject.String+child.filterObject.String, ptn.filterObject.Offset)
+	}
+	return child
+}
+
 // delete a subscription if already exists
 func (ptn *PatriciaTrieNode) delete(fs string, reportURI string) {
 	// No such filter exist in the trie
@@ -361,6 +377,7 @@ func (ptn *PatriciaTrieNode) delete(fs string, reportURI string) {
 					ptn.one = nil
 				} else {
 					ptn.one.delete(fs[ptn.filterObject.Size:], reportURI)
+					ptn.one = ptn.one.compact()
 				}
 			}
 		case '0':
@@ -371,6 +388,7 @@ func (ptn *PatriciaTrieNode) delete(fs string, reportURI string) {
 					ptn.zero = nil
 				} else {
 					ptn.zero.delete(fs[ptn.filterObject.Size:], reportURI)
+					ptn.zero = ptn.zero.compact()
 				}
 			}
 		}
diff --git a/filtering/splay_tree.go b/filtering/splay_tree.go
index 547956a..ac8b8d7 100644
--- a/filtering/splay_tree.go
+++ b/filtering/splay_tree.go
@@ -45,6 +45,9 @@ func (st *SplayTree) DeleteSubscription(sub Subscriptions) {
 	bsub := sub.ToByteSubscriptions()
 	for _, fs := range bsub.Keys() {
 		st.root.delete(fs, bsub[fs].ReportURI)
+		if root := st.root.compact(); root != nil {
+			st.root = root
+		}
 	}
 }
 
@@ -262,6 +265,24 @@ func (stn *SplayTreeNode) build(sub ByteSubscriptions) *SplayTreeNode {
 	return stn
 }
 
+// compact returns the node to stand in the place of this one in its chain:
+// a node that reports nothing is left out without a subset, and joined with an only subset
+func (stn *SplayTreeNode) compact() *SplayTreeNode {
+	if len(stn.reportURI) != 0 {
+		return stn
+	}
+	subset := stn.matchNext
+	if subset == nil {
+		return stn.mismatchNext
+	}
+	if subset.mismatchNext != nil {
+		return stn
+	}
+	subset.filterObject = NewFilter(stn.filterObject.String+subset.filterObject.String, stn.filterObject.Offset)
+	subset.mismatchNext = stn.mismatchNext
+	return subset
+}
+
 // delete a set of subscriptions if not exists yet
 func (stn *SplayTreeNode) delete(fs string, reportURI string) {
 	if strings.HasPrefix(fs, stn.filterObject.String) { // fs \in stn.FilterObject.String
@@ -293,6 +314,7 @@ func (stn *SplayTreeNode) delete(fs string, reportURI string) {
 					stn.matchNext = nil
 				} else {
 					stn.matchNext.delete(fs[stn.filterObject.Size:], reportURI)
+					stn.matchNext = stn.matchNext.compact()
 				}
 			}
 		}
@@ -304,6 +326,7 @@ func (stn *SplayTreeNode) delete(fs string, reportURI string) {
 				stn.mismatchNext = nil
 			} else {
 				stn.mismatchNext.delete(fs, reportURI)
+				stn.mismatchNext = stn.mismatchNext.compact()
 			}
 		}
 	}
-- 
2.43.0


From c51d1772a035969bb7f924d9d19226ff4777aad4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:39:31 +0000
Subject: [PATCH 39/44] fix: take as patterns only what begins as one, in
 either case

The loader takes urn:epc:pat: in either case, but the engines that compare
bits ignored those in upper case, and took strings without that beginning.
---
 filtering/legacy_engine.go |  3 +++
 filtering/subscriptions.go | 13 ++++++++++++-
 2 files changed, 15 insertions(+), 1 deletion(-)

diff --git a/filtering/legacy_engine.go b/filtering/legacy_engine.go
index 98fce25..0746c79 100644
--- a/filtering/legacy_engine.go
+++ b/filtering/legacy_engine.go
@@ -92,6 +92,9 @@ func (le *LegacyEngine) Search(re llrp.ReadEvent) (pureIdentity string, reportUR
 
 	for reportURI, patterns := range le.filters {
 		for _, pattern := range patterns {
+			if !isPattern(pattern) {
+				continue
+			}
 			seq := strings.Split(pattern, ":")
 			if len(seq) != 5 {
 				continue
diff --git a/filtering/subscriptions.go b/filtering/subscriptions.go
index 28281fc..bb8bb81 100644
--- a/filtering/subscriptions.go
+++ b/filtering/subscriptions.go
@@ -30,6 +30,14 @@ type PartialSubscription struct {
 	Subset    ByteSubscriptions
 }
 
+// patternPrefix begins every pattern, its letters may be in either case
+const patternPrefix = "urn:epc:pat:"
+
+// isPattern returns true if pat begins as a pattern does
+func isPattern(pat string) bool {
+	return len(pat) >= len(patternPrefix) && strings.EqualFold(pat[:len(patternPrefix)], patternPrefix)
+}
+
 // Subscriptions contains a slice of urn:epc:pat as values and a URI to report events as keys
 type Subscriptions map[string][]string
 
@@ -121,7 +129,10 @@ func (sub Subscriptions) ToByteSubscriptions() ByteSubscriptions {
 	bsub := ByteSubscriptions{}
 	for reportURI, patterns := range sub {
 		for _, pat := range patterns {
-			tf := strings.Split(strings.TrimPrefix(pat, "urn:epc:pat:"), ":")
+			if !isPattern(pat) {
+				continue
+			}
+			tf := strings.Split(pat[len(patternPrefix):], ":")
 			if len(tf) != 2 { // should only containts a type and fields
 				continue
 			}
-- 
2.43.0


From 5a411a6ee3e1297bdefacad1e951dfaa7364e239 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:39:31 +0000
Subject: [PATCH 40/44] fix: match the fields of a pattern in either case in
 the legacy engine

The other engines take them in upper case.
---
 filtering/legacy_engine.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/filtering/legacy_engine.go b/filtering/legacy_engine.go
index 0746c79..a4e6d06 100644
--- a/filtering/legacy_engine.go
+++ b/filtering/legacy_engine.go
@@ -100,7 +100,7 @@ func (le *LegacyEngine) Search(re llrp.ReadEvent) (pureIdentity string, reportUR
 				continue
 			}
 			patternType := seq[3]
-			pattern := seq[4]
+			pattern := strings.ToUpper(seq[4])
 
 			switch patternType {
 			case "giai-96":
-- 
2.43.0


From b583650638b00bd159325fbeb5b26006e06d655e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:24:45 +0000
Subject: [PATCH 41/44] fix: count a matching search in the interval of the
 search itself

---
 filtering/engine.go           |  6 ------
 filtering/engine_generator.go | 24 ++++++++++++++++--------
 2 files changed, 16 insertions(+), 14 deletions(-)

diff --git a/filtering/engine.go b/filtering/engine.go
index 1f6ab42..2930edb 100644
--- a/filtering/engine.go
+++ b/filtering/engine.go
@@ -8,7 +8,6 @@ package filtering
 import (
 	"fmt"
 	"log"
-	"time"
 
 	"github.com/iomz/go-llrp"
 )
@@ -40,11 +39,6 @@ var AvailableEngines = Engines{
 }
 
 /* internal helper func */
-// timeTrack measures the time it taken from the start
-func timeTrack(start time.Time, tpech chan time.Duration) {
-	tpech <- time.Since(start)
-}
-
 // findPartialLCP discovers the the commonPrefix of which the majority share
 // reutrns the prefix and the size of the majority in len(l)
 func findPartialLCP(l []string) (string, int) {
diff --git a/filtering/engine_generator.go b/filtering/engine_generator.go
index 7bd2bd2..abed52d 100644
--- a/filtering/engine_generator.go
+++ b/filtering/engine_generator.go
@@ -9,7 +9,6 @@ import (
 	"context"
 	"log"
 	"math"
-	"sync/atomic"
 	"time"
 
 	//"reflect"
@@ -24,7 +23,7 @@ type EngineGenerator struct {
 	Name                string
 	Engine              Engine
 	managementChannel   chan ManagementMessage
-	timePerEventChannel chan time.Duration
+	timePerEventChannel chan searchTime
 	totalTime           int64
 	CurrentThroughput   float64
 	EventCount          int64
@@ -32,6 +31,13 @@ type EngineGenerator struct {
 	statInterval        int
 }
 
+// searchTime is the time a search took and if it matched,
+// taken together so that both count in the same interval
+type searchTime struct {
+	time.Duration
+	matched bool
+}
+
 // NewEngineGenerator returns the pointer to a new EngineGenerator instance
 func NewEngineGenerator(name string, ec EngineConstructor, statInterval int, mc chan ManagementMessage) *EngineGenerator {
 	eg := &EngineGenerator{
@@ -65,7 +71,7 @@ func NewEngineGenerator(name string, ec EngineConstructor, statInterval int, mc
 		},
 	)
 
-	eg.timePerEventChannel = make(chan time.Duration)
+	eg.timePerEventChannel = make(chan searchTime)
 	go func() {
 		intervalTicker := time.NewTicker(time.Duration(eg.statInterval) * time.Second)
 
@@ -78,13 +84,16 @@ func NewEngineGenerator(name string, ec EngineConstructor, statInterval int, mc
 				//log.Printf("[EngineGenerator] %s: %v us/event", eg.Name, t.Nanoseconds())
 				eg.totalTime += t.Nanoseconds() / 1000 // microseconds
 				eg.EventCount++
+				if t.matched {
+					eg.MatchedCount++
+				}
 			case <-intervalTicker.C:
 				//log.Printf("%v, %v, %v", eg.Name, eg.EventCount, eg.MatchedCount)
 				eg.managementChannel <- ManagementMessage{
 					Type:         TrafficStatus,
 					EngineName:   eg.Name,
 					EventCount:   eg.EventCount,
-					MatchedCount: atomic.SwapInt64(&eg.MatchedCount, 0),
+					MatchedCount: eg.MatchedCount,
 				}
 				throughput := float64(eg.EventCount) / float64(eg.totalTime)
 				if throughput != 0 && !math.IsNaN(throughput) && !math.IsInf(throughput, 0) {
@@ -96,6 +105,7 @@ func NewEngineGenerator(name string, ec EngineConstructor, statInterval int, mc
 					}
 				}
 				eg.EventCount = 0
+				eg.MatchedCount = 0
 				eg.totalTime = 0
 			}
 		}
@@ -106,11 +116,9 @@ func NewEngineGenerator(name string, ec EngineConstructor, statInterval int, mc
 
 // Search do search in the generated engine
 func (eg *EngineGenerator) Search(re llrp.ReadEvent) (string, []string, error) {
-	defer timeTrack(time.Now(), eg.timePerEventChannel)
+	start := time.Now()
 	pureIdentity, reportURIs, err := eg.Engine.Search(re)
-	if len(reportURIs) != 0 {
-		atomic.AddInt64(&eg.MatchedCount, 1)
-	}
+	eg.timePerEventChannel <- searchTime{time.Since(start), len(reportURIs) != 0}
 	return pureIdentity, reportURIs, err
 }
 
-- 
2.43.0


From a2824db36585be1a9a74ff60310b7127ff1d578e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:46:00 +0000
Subject: [PATCH 42/44] fix: refuse to encode EPC fields that are no number or
 out of range

---
 scheme/epc.go | 43 +++++++++++++++++++++++++++++++++++++++++++
 1 file changed, 43 insertions(+)

diff --git a/scheme/epc.go b/scheme/epc.go
index ad3665a..16f8fd2 100644
--- a/scheme/epc.go
+++ b/scheme/epc.go
@@ -6,6 +6,7 @@ import (
 	"fmt"
 	"math"
 	"strconv"
+	"strings"
 
 	"github.com/iomz/go-llrp/binutil"
 )
@@ -181,8 +182,23 @@ func validateCompanyPrefix(cp string, pt PartitionTable) error {
 	return nil
 }
 
+// validateField returns an error unless v is empty or a number of no more than the given digits and bits
+func validateField(name string, v string, digits int, bits uint) error {
+	if v == "" {
+		return nil
+	}
+	n, err := strconv.ParseUint(v, 10, 64)
+	if err != nil || n>>bits != 0 || len(strings.TrimLeft(v, "0")) > digits {
+		return fmt.Errorf("invalid %s: %q", name, v)
+	}
+	return nil
+}
+
 // MakeGIAI96 generates GIAI-96
 func MakeGIAI96(pf bool, fv string, cp string, iar string) ([]byte, string, string, error) {
+	if err := validateField("filter", fv, 1, 3); err != nil {
+		return []byte{}, "", "", err
+	}
 	filter := GetFilter(fv)
 	if fv == "" {
 		fv = strconv.Itoa(binutil.ParseBinRuneSliceToInt(filter))
@@ -207,6 +223,9 @@ func MakeGIAI96(pf bool, fv string, cp string, iar string) ([]byte, string, stri
 			return []byte{}, "00110100" + string(filter) + string(partition) + string(companyPrefix), "urn:epc:pat:giai-96:" + fv + "." + cp, nil
 		}
 	}
+	if err := validateField("indivisualAssetReference", iar, GIAI96PartitionTable[len(cp)][IARDigits], uint(GIAI96PartitionTable[len(cp)][IARBits])); err != nil {
+		return []byte{}, "", "", err
+	}
 	indivisualAssetReference := GetIndivisualAssetReference(iar, GIAI96PartitionTable[len(cp)])
 
 	// Exact match
@@ -247,6 +266,9 @@ func MakeGIAI96(pf bool, fv string, cp string, iar string) ([]byte, string, stri
 
 // MakeGRAI96 generates GRAI-96
 func MakeGRAI96(pf bool, fv string, cp string, at string, ser string) ([]byte, string, string, error) {
+	if err := validateField("filter", fv, 1, 3); err != nil {
+		return []byte{}, "", "", err
+	}
 	filter := GetFilter(fv)
 
 	//CP
@@ -268,6 +290,9 @@ func MakeGRAI96(pf bool, fv string, cp string, at string, ser string) ([]byte, s
 			return []byte{}, "00110011" + string(filter) + string(partition) + string(companyPrefix), "urn:epc:pat:grai-96:" + fv + "." + cp, nil
 		}
 	}
+	if err := validateField("assetType", at, GRAI96PartitionTable[len(cp)][ATDigits], uint(GRAI96PartitionTable[len(cp)][ATBits])); err != nil {
+		return []byte{}, "", "", err
+	}
 	assetType := GetAssetType(at, GRAI96PartitionTable[len(cp)])
 
 	// SER
@@ -276,6 +301,9 @@ func MakeGRAI96(pf bool, fv string, cp string, at string, ser string) ([]byte, s
 			return []byte{}, "00110011" + string(filter) + string(partition) + string(companyPrefix) + string(assetType), "urn:epc:pat:grai-96:" + fv + "." + cp + "." + at, nil
 		}
 	}
+	if err := validateField("serial", ser, 12, 38); err != nil {
+		return []byte{}, "", "", err
+	}
 	serial := GetSerial(ser, 38)
 
 	// Exact match
@@ -317,6 +345,9 @@ func MakeGRAI96(pf bool, fv string, cp string, at string, ser string) ([]byte, s
 
 // MakeSGTIN96 generates SGTIN-96
 func MakeSGTIN96(pf bool, fv string, cp string, ir string, ser string) ([]byte, string, string, error) {
+	if err := validateField("filter", fv, 1, 3); err != nil {
+		return []byte{}, "", "", err
+	}
 	filter := GetFilter(fv)
 	// CP
 	if cp == "" {
@@ -337,6 +368,9 @@ func MakeSGTIN96(pf bool, fv string, cp string, ir string, ser string) ([]byte,
 			return []byte{}, "00110000" + string(filter) + string(partition) + string(companyPrefix), "urn:epc:pat:sgtin-96:" + fv + "." + cp, nil
 		}
 	}
+	if err := validateField("itemReference", ir, SGTIN96PartitionTable[len(cp)][IRDigits], uint(SGTIN96PartitionTable[len(cp)][IRBits])); err != nil {
+		return []byte{}, "", "", err
+	}
 	itemReference := GetItemReference(ir, SGTIN96PartitionTable[len(cp)])
 
 	// SER
@@ -345,6 +379,9 @@ func MakeSGTIN96(pf bool, fv string, cp string, ir string, ser string) ([]byte,
 			return []byte{}, "00110000" + string(filter) + string(partition) + string(companyPrefix) + string(itemReference), "urn:epc:pat:sgtin-96:" + fv + "." + cp + "." + ir, nil
 		}
 	}
+	if err := validateField("serial", ser, 12, 38); err != nil {
+		return []byte{}, "", "", err
+	}
 	serial := GetSerial(ser, 38)
 
 	// Exact match
@@ -386,6 +423,9 @@ func MakeSGTIN96(pf bool, fv string, cp string, ir string, ser string) ([]byte,
 
 // MakeSSCC96 generates SSCC-96
 func MakeSSCC96(pf bool, fv string, cp string, ext string) ([]byte, string, string, error) {
+	if err := validateField("filter", fv, 1, 3); err != nil {
+		return []byte{}, "", "", err
+	}
 	filter := GetFilter(fv)
 	// CP
 	if cp == "" {
@@ -406,6 +446,9 @@ func MakeSSCC96(pf bool, fv string, cp string, ext string) ([]byte, string, stri
 			return []byte{}, "00110001" + string(filter) + string(partition) + string(companyPrefix), "urn:epc:pat:sscc-96:" + fv + "." + cp, nil
 		}
 	}
+	if err := validateField("extension", ext, SSCC96PartitionTable[len(cp)][EDigits], uint(SSCC96PartitionTable[len(cp)][EBits])); err != nil {
+		return []byte{}, "", "", err
+	}
 	extension := GetExtension(ext, SSCC96PartitionTable[len(cp)])
 
 	// Exact match (ignore rsvd
-- 
2.43.0


From 97b281c83ba6e50163bca37c083d7ea528e48a1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:46:15 +0000
Subject: [PATCH 43/44] fix: refuse to encode text without 6-bit code or too
 long for its length field

---
 scheme/iso.go | 24 ++++++++++++++++++++++++
 1 file changed, 24 insertions(+)

diff --git a/scheme/iso.go b/scheme/iso.go
index 622af3f..8b15aa5 100644
--- a/scheme/iso.go
+++ b/scheme/iso.go
@@ -27,8 +27,23 @@ func GetISO6346CD(cn string) (int, error) {
 	return (int(n) - int(n/11)*11) % 10, nil
 }
 
+// validate6BitFields returns an error if a field has a character without 6-bit encoding
+func validate6BitFields(fields ...string) error {
+	for _, field := range fields {
+		for _, r := range field {
+			if r <= ' ' || '_' < r { // the space is for padding
+				return fmt.Errorf("invalid field: %q", field)
+			}
+		}
+	}
+	return nil
+}
+
 // MakeISO17363 generates a random 17363 code
 func MakeISO17363(pf bool, oc string, ei string, csn string) ([]byte, int, string, string, error) {
+	if err := validate6BitFields(oc, ei, csn); err != nil {
+		return []byte{}, 0, "", "", err
+	}
 	di := "7B"
 	dataIdentifier := binutil.ParseRuneSliceTo6BinRuneSlice([]rune(di))
 
@@ -92,6 +107,12 @@ func MakeISO17363(pf bool, oc string, ei string, csn string) ([]byte, int, strin
 
 // MakeISO17365 generates a random 17367 code
 func MakeISO17365(pf bool, di string, iac string, cin string, sn string) ([]byte, int, string, string, error) {
+	if di == "" {
+		return []byte{}, 0, "", "", errors.New("DI not provided")
+	}
+	if err := validate6BitFields(di, iac, cin, sn); err != nil {
+		return []byte{}, 0, "", "", err
+	}
 	dataIdentifier := binutil.ParseRuneSliceTo6BinRuneSlice([]rune(di))
 
 	// IAC
@@ -132,6 +153,9 @@ func MakeISO17365(pf bool, di string, iac string, cin string, sn string) ([]byte
 
 	var length int
 	bs, length = Pad6BitEncodingRuneSlice(bs)
+	if length > 31*16 { // the length in PC has 5 bits
+		return []byte{}, 0, "", "", fmt.Errorf("invalid length: %v words, want 31 or less", length/16)
+	}
 
 	p, err := binutil.ParseBinRuneSliceToUint8Slice(bs)
 	if err != nil {
-- 
2.43.0


From b960891da64151bb53cd29a60185333188157f47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:17:59 +0000
Subject: [PATCH 44/44] fix: take the time of searches in nanoseconds, most
 take less than a microsecond

---
 filtering/engine_generator.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/filtering/engine_generator.go b/filtering/engine_generator.go
index abed52d..8e57a9d 100644
--- a/filtering/engine_generator.go
+++ b/filtering/engine_generator.go
@@ -82,7 +82,7 @@ func NewEngineGenerator(name string, ec EngineConstructor, statInterval int, mc
 					log.Fatalf("throughput monitor in EngingGenerator[%s] died", eg.Name)
 				}
 				//log.Printf("[EngineGenerator] %s: %v us/event", eg.Name, t.Nanoseconds())
-				eg.totalTime += t.Nanoseconds() / 1000 // microseconds
+				eg.totalTime += t.Nanoseconds() // many searches take less than a microsecond
 				eg.EventCount++
 				if t.matched {
 					eg.MatchedCount++
@@ -95,7 +95,7 @@ func NewEngineGenerator(name string, ec EngineConstructor, statInterval int, mc
 					EventCount:   eg.EventCount,
 					MatchedCount: eg.MatchedCount,
 				}
-				throughput := float64(eg.EventCount) / float64(eg.totalTime)
+				throughput := float64(eg.EventCount) / float64(eg.totalTime) * 1000 // events per microsecond
 				if throughput != 0 && !math.IsNaN(throughput) && !math.IsInf(throughput, 0) {
 					eg.CurrentThroughput = throughput
 					eg.managementChannel <- ManagementMessage{
-- 
2.43.0

