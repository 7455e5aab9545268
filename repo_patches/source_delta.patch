From 896ab9814b4271c707f75a89e78ba7904b7b46b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:43 +0000
Subject: [PATCH 01/50] fix: log: refuse to evaluate a proof for a tree smaller
 than the retained one

---
 tree/log/verify.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/tree/log/verify.go b/tree/log/verify.go
index 69e4c93..2698a8e 100644
--- a/tree/log/verify.go
+++ b/tree/log/verify.go
@@ -57,6 +57,8 @@ func (v *Verifier) Evaluate(entries []uint64, n uint64, nP *uint64, values [][]b
 		return nil, nil, errors.New("invalid value for current tree size")
 	} else if nP != nil && (*nP == 0 || *nP > n || *nP > math.MaxTreeSize) {
 		return nil, nil, errors.New("invalid value for additional tree size")
+	} else if v.prev != nil && *v.prev > n {
+		return nil, nil, errors.New("current tree size is less than previously observed tree size")
 	} else if len(entries) != len(values) {
 		return nil, nil, errors.New("number of leaves indices must equal number of leaf values")
 	}
-- 
2.43.0


From b1e680f9d7817932e38e9479cfb21087e7c08b12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:44 +0000
Subject: [PATCH 02/50] fix: prefix: follow searches through a tile whose root
 is stored in another tile

---
 tree/prefix/batch.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tree/prefix/batch.go b/tree/prefix/batch.go
index 93beab9..262988e 100644
--- a/tree/prefix/batch.go
+++ b/tree/prefix/batch.go
@@ -172,7 +172,7 @@ func (b *batch) search(state map[*node][]cursor) error {
 		// Replace the node where the search terminated with the new subtree
 		// that was just looked up. Setup cursor for next iteration.
 		*step.ptr = *n
-		nextState[n] = append(nextState[n], *cursor)
+		nextState[step.ptr] = append(nextState[step.ptr], *cursor)
 	}
 
 	return b.search(nextState)
-- 
2.43.0


From 1ced0a0f07c38299c04f729fa663a1805aca839f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:46 +0000
Subject: [PATCH 03/50] fix: prefix: load the root of a tree version even when
 nothing is searched for

---
 tree/prefix/batch.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/tree/prefix/batch.go b/tree/prefix/batch.go
index 262988e..eacbbb1 100644
--- a/tree/prefix/batch.go
+++ b/tree/prefix/batch.go
@@ -74,6 +74,11 @@ func (b *batch) initialize(searches map[uint64][][]byte) (map[uint64]*tile, map[
 		for _, vrfOutput := range vrfOutputs {
 			cursors = append(cursors, cursor{vrfOutput: vrfOutput, depth: 0})
 		}
+		if len(cursors) == 0 {
+			// Even when nothing is searched for, the root of the tree needs to
+			// be loaded for its hash to be known.
+			cursors = append(cursors, cursor{vrfOutput: make([]byte, b.cs.HashSize())})
+		}
 		state[&out.root] = cursors
 	}
 
-- 
2.43.0


From 67a628eabeb671fa79b34a1620fe80905b0e823d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:46 +0000
Subject: [PATCH 04/50] fix: prefix: refuse a non-inclusion proof that names
 the searched entry itself

---
 tree/prefix/verify.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/tree/prefix/verify.go b/tree/prefix/verify.go
index e77543b..2cf9906 100644
--- a/tree/prefix/verify.go
+++ b/tree/prefix/verify.go
@@ -55,6 +55,9 @@ func addToSkeleton(n *node, entry Entry, res PrefixSearchResult) error {
 				return errors.New("current depth is greater than result depth")
 			} else if depth == res.Depth() {
 				*n = terminalNode(entry, res)
+				if m, ok := (*n).(leafNode); ok && res.Inclusion() != bytes.Equal(entry.VrfOutput, m.vrfOutput) {
+					return errors.New("malformed proof")
+				}
 				return nil
 			} else {
 				*n = &parentNode{left: externalNode{}, right: externalNode{}}
-- 
2.43.0


From 0fc790195025d61093890cccc20576e55f020e1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:34 +0000
Subject: [PATCH 05/50] fix: prefix: compare the commitment of an entry already
 named by another result

---
 tree/prefix/verify.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/tree/prefix/verify.go b/tree/prefix/verify.go
index 2cf9906..764ea31 100644
--- a/tree/prefix/verify.go
+++ b/tree/prefix/verify.go
@@ -40,6 +40,9 @@ func addToSkeleton(n *node, entry Entry, res PrefixSearchResult) error {
 			if res.Depth() != depth || res.Inclusion() != equal {
 				return errors.New("malformed proof")
 			}
+			if equal && !bytes.Equal(entry.Commitment, m.commitment) {
+				return errors.New("malformed proof")
+			}
 			return nil
 
 		case *parentNode:
-- 
2.43.0


From d891b60b8f1c839317261773273e34bf0ec2e8b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:20 +0000
Subject: [PATCH 06/50] fix: prefix: check the lookups of a described change
 and support re-adding a removed entry

---
 tree/prefix/verify.go | 44 +++++++++++++++++++++++++++++++++++++++++++
 1 file changed, 44 insertions(+)

diff --git a/tree/prefix/verify.go b/tree/prefix/verify.go
index 764ea31..fac04cd 100644
--- a/tree/prefix/verify.go
+++ b/tree/prefix/verify.go
@@ -156,6 +156,46 @@ func Verify(cs suites.CipherSuite, entries []Entry, proof *PrefixProof, root []b
 	return nil
 }
 
+// checkChanges verifies that the first `numAdd` entries are shown by `proof` to
+// not be present and that the remaining entries, which are to be removed, are
+// shown to be present. Entries that are removed and added again in the same
+// change are looked up twice, and only the lookup for the removal is kept.
+func checkChanges(entries []Entry, numAdd int, proof *PrefixProof) ([]Entry, *PrefixProof, error) {
+	if len(entries) != len(proof.Results) {
+		return nil, nil, errors.New("number of entries searched for does not match number of results")
+	}
+	removed := make(map[string]PrefixSearchResult)
+	for i := numAdd; i < len(entries); i++ {
+		if !proof.Results[i].Inclusion() {
+			return nil, nil, errors.New("removed entry is not present")
+		}
+		removed[string(entries[i].VrfOutput)] = proof.Results[i]
+	}
+
+	outEntries := make([]Entry, 0, len(entries))
+	outResults := make([]PrefixSearchResult, 0, len(entries))
+	added := make(map[string]struct{})
+	for i, entry := range entries {
+		if i < numAdd {
+			if _, ok := added[string(entry.VrfOutput)]; ok {
+				return nil, nil, errors.New("same vrf output present multiple times")
+			}
+			added[string(entry.VrfOutput)] = struct{}{}
+
+			res, ok := removed[string(entry.VrfOutput)]
+			if ok && proof.Results[i] == res {
+				continue
+			} else if ok || proof.Results[i].Inclusion() {
+				return nil, nil, errors.New("added entry is already present")
+			}
+		}
+		outEntries = append(outEntries, entry)
+		outResults = append(outResults, proof.Results[i])
+	}
+
+	return outEntries, &PrefixProof{Results: outResults, Elements: proof.Elements}, nil
+}
+
 // EvaluateBeforeAfter evaluates `proof` before and after making the requested
 // additions and removals.
 func EvaluateBeforeAfter(cs suites.CipherSuite, add, remove []Entry, proof *PrefixProof) ([]byte, []byte, error) {
@@ -165,6 +205,10 @@ func EvaluateBeforeAfter(cs suites.CipherSuite, add, remove []Entry, proof *Pref
 	copy(allEntries, add)
 	copy(allEntries[len(add):], remove)
 
+	allEntries, proof, err := checkChanges(allEntries, len(add), proof)
+	if err != nil {
+		return nil, nil, err
+	}
 	root, err := evaluate(cs, allEntries, proof)
 	if err != nil {
 		return nil, nil, err
-- 
2.43.0


From f75d6829962d6e19e3c4107df194c7aaf04c055b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:18 +0000
Subject: [PATCH 07/50] fix: prefix: refuse a non-inclusion proof whose leaf is
 not on the searched path

---
 tree/prefix/verify.go | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/tree/prefix/verify.go b/tree/prefix/verify.go
index fac04cd..c532403 100644
--- a/tree/prefix/verify.go
+++ b/tree/prefix/verify.go
@@ -22,6 +22,16 @@ func terminalNode(entry Entry, res PrefixSearchResult) node {
 	}
 }
 
+// samePrefix returns true if the first `depth` bits of `a` and `b` are equal.
+func samePrefix(a, b []byte, depth int) bool {
+	for i := range depth {
+		if getBit(a, i) != getBit(b, i) {
+			return false
+		}
+	}
+	return true
+}
+
 // addToSkeleton adds the terminal node for a single search result
 // to the in-memory tree in `n`.
 func addToSkeleton(n *node, entry Entry, res PrefixSearchResult) error {
@@ -60,6 +70,8 @@ func addToSkeleton(n *node, entry Entry, res PrefixSearchResult) error {
 				*n = terminalNode(entry, res)
 				if m, ok := (*n).(leafNode); ok && res.Inclusion() != bytes.Equal(entry.VrfOutput, m.vrfOutput) {
 					return errors.New("malformed proof")
+				} else if ok && !samePrefix(entry.VrfOutput, m.vrfOutput, depth) {
+					return errors.New("malformed proof")
 				}
 				return nil
 			} else {
-- 
2.43.0


From 410d41afbcc3bea0c1030a12410a640f35c77eba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:57 +0000
Subject: [PATCH 08/50] fix: prefix: recognize empty copath nodes when
 evaluating the root after a removal

---
 tree/prefix/verify.go | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/tree/prefix/verify.go b/tree/prefix/verify.go
index c532403..be7f577 100644
--- a/tree/prefix/verify.go
+++ b/tree/prefix/verify.go
@@ -168,6 +168,22 @@ func Verify(cs suites.CipherSuite, entries []Entry, proof *PrefixProof, root []b
 	return nil
 }
 
+// restoreEmptyNodes replaces copath nodes that are known to be empty with
+// emptyNodes, such that the tree is simplified correctly when entries next to
+// them are removed.
+func restoreEmptyNodes(cs suites.CipherSuite, n *node) {
+	switch m := (*n).(type) {
+	case *parentNode:
+		restoreEmptyNodes(cs, &m.left)
+		restoreEmptyNodes(cs, &m.right)
+
+	case externalNode:
+		if bytes.Equal(m.hash, emptyNode{}.Hash(cs)) {
+			*n = emptyNode{}
+		}
+	}
+}
+
 // checkChanges verifies that the first `numAdd` entries are shown by `proof` to
 // not be present and that the remaining entries, which are to be removed, are
 // shown to be present. Entries that are removed and added again in the same
@@ -239,6 +255,7 @@ func EvaluateBeforeAfter(cs suites.CipherSuite, add, remove []Entry, proof *Pref
 	}
 	slices.SortFunc(sortedRemove, bytes.Compare)
 
+	restoreEmptyNodes(cs, &root)
 	addRemoveEntries(cs, &root, sortedAdd, sortedRemove, 0)
 	after := root.Hash(cs)
 
-- 
2.43.0


From de4a9672b9968743e109a97a245ced60f7ab5f9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:04 +0000
Subject: [PATCH 09/50] fix: transparency/math: support binary ladders for
 versions of 2^31 and above

---
 tree/transparency/math/ladders.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/tree/transparency/math/ladders.go b/tree/transparency/math/ladders.go
index 5e398d4..1ad5077 100644
--- a/tree/transparency/math/ladders.go
+++ b/tree/transparency/math/ladders.go
@@ -2,6 +2,7 @@ package math
 
 import (
 	"errors"
+	stdmath "math"
 
 	"github.com/Bren2010/katie/tree/prefix"
 )
@@ -14,12 +15,14 @@ func baseBinaryLadder(n uint32) []uint32 {
 		out = append(out, val)
 		if val > n {
 			break
+		} else if val == stdmath.MaxUint32 {
+			return out // No greater version exists.
 		}
 	}
 
 	lowerBound, upperBound := out[len(out)-2], out[len(out)-1]
 	for lowerBound+1 < upperBound {
-		val := (lowerBound + upperBound) / 2
+		val := lowerBound + (upperBound-lowerBound)/2
 		out = append(out, val)
 		if val <= n {
 			lowerBound = val
-- 
2.43.0


From ee6df8bef927a0836ebeb204dee7b72901c6901e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:12 +0000
Subject: [PATCH 10/50] fix: transparency/math: walk the frontier when the
 previous tree's last entry is on it

---
 tree/transparency/math/math.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/tree/transparency/math/math.go b/tree/transparency/math/math.go
index bde0268..a94ffaa 100644
--- a/tree/transparency/math/math.go
+++ b/tree/transparency/math/math.go
@@ -132,9 +132,12 @@ func UpdateView(n uint64, m *uint64) []uint64 {
 		out = append(out, Root(n))
 	} else {
 		out = append(out, RightDirectPath(*m-1, n)...)
+		if len(out) == 0 { // The log entry is on the frontier of the new tree.
+			out = append(out, Right(*m-1, n))
+		}
 	}
 
-	for len(out) > 0 && out[len(out)-1] != n-1 {
+	for out[len(out)-1] != n-1 {
 		out = append(out, Right(out[len(out)-1], n))
 	}
 
-- 
2.43.0


From fe433200dd87f71fad73bffc6cdaf4f37e50dfd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:59 +0000
Subject: [PATCH 11/50] fix: db/memory: return the previous greatest version
 when incrementing

---
 db/memory/memory.go | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/db/memory/memory.go b/db/memory/memory.go
index 051fb76..0eee703 100644
--- a/db/memory/memory.go
+++ b/db/memory/memory.go
@@ -228,10 +228,7 @@ func NewManagedLogStore() *ManagedLogStore {
 func (mls *ManagedLogStore) IncrementGreatestVersion(label []byte, count int) (int, error) {
 	labelStr := fmt.Sprintf("%x", label)
 
-	ver, ok := mls.Data[labelStr]
+	versions := mls.Data[labelStr] // Number of versions that exist.
 	mls.Data[labelStr] += count
-	if !ok {
-		return -1, nil
-	}
-	return ver, nil
+	return versions - 1, nil
 }
-- 
2.43.0


From 1ffbeaf5536d2dd737fc3782e0e627087df5228a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:02 +0000
Subject: [PATCH 12/50] fix: structs: encode the state of label owners

---
 tree/transparency/structs/client.go  | 13 +++++++++----
 tree/transparency/structs/structs.go |  2 +-
 2 files changed, 10 insertions(+), 5 deletions(-)

diff --git a/tree/transparency/structs/client.go b/tree/transparency/structs/client.go
index 3348b17..f9a2523 100644
--- a/tree/transparency/structs/client.go
+++ b/tree/transparency/structs/client.go
@@ -107,7 +107,7 @@ func NewLabelOwnerState(buf *bytes.Buffer) (*LabelOwnerState, error) {
 	if err != nil {
 		return nil, err
 	}
-	verAtStarting, err := readNumeric[int](buf)
+	verAtStarting, err := readNumeric[int64](buf)
 	if err != nil {
 		return nil, err
 	}
@@ -117,14 +117,14 @@ func NewLabelOwnerState(buf *bytes.Buffer) (*LabelOwnerState, error) {
 	}
 	return &LabelOwnerState{
 		Starting:      starting,
-		VerAtStarting: verAtStarting,
+		VerAtStarting: int(verAtStarting),
 		UpcomingVers:  upcomingVers,
 	}, nil
 }
 
 func (los *LabelOwnerState) Marshal(buf *bytes.Buffer) error {
 	writeNumeric(buf, los.Starting)
-	writeNumeric(buf, los.VerAtStarting)
+	writeNumeric(buf, int64(los.VerAtStarting))
 	return writeNumericSlice[uint32](buf, los.UpcomingVers, "upcoming versions")
 }
 
@@ -195,6 +195,9 @@ func NewClientLabelState(cs suites.CipherSuite, buf *bytes.Buffer) (*ClientLabel
 	versions, err := readFuncSlice[uint32](buf, func(buf *bytes.Buffer) (*RetainedVersion, error) {
 		return NewRetainedVersion(cs, buf)
 	})
+	if err != nil {
+		return nil, err
+	}
 
 	return &ClientLabelState{Contact: contact, Owner: owner, Versions: versions}, nil
 }
@@ -204,7 +207,9 @@ func (cls *ClientLabelState) Marshal(buf *bytes.Buffer) error {
 		return err
 	}
 	if writeOptional(buf, cls.Owner != nil) {
-		return cls.Owner.Marshal(buf)
+		if err := cls.Owner.Marshal(buf); err != nil {
+			return err
+		}
 	}
 	return writeMarshalSlice[uint32](buf, cls.Versions, "retained versions")
 }
diff --git a/tree/transparency/structs/structs.go b/tree/transparency/structs/structs.go
index 8f4e159..4fc6fb7 100644
--- a/tree/transparency/structs/structs.go
+++ b/tree/transparency/structs/structs.go
@@ -24,7 +24,7 @@ func Marshal(x Marshaller) ([]byte, error) {
 }
 
 type numeric interface {
-	uint8 | uint16 | uint32 | uint64 | int
+	uint8 | uint16 | uint32 | uint64 | int64
 }
 
 func readNumeric[T numeric](buf *bytes.Buffer) (T, error) {
-- 
2.43.0


From babcf23f4ba1be45b40ceadcff8e7e65e21646ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:04 +0000
Subject: [PATCH 13/50] fix: structs: encode client state deterministically

---
 tree/transparency/structs/client.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/tree/transparency/structs/client.go b/tree/transparency/structs/client.go
index f9a2523..94efecf 100644
--- a/tree/transparency/structs/client.go
+++ b/tree/transparency/structs/client.go
@@ -2,8 +2,10 @@ package structs
 
 import (
 	"bytes"
+	"cmp"
 	"errors"
 	"io"
+	"slices"
 
 	"github.com/Bren2010/katie/crypto/suites"
 )
@@ -93,6 +95,9 @@ func (cs *ClientState) Marshal(buf *bytes.Buffer) error {
 	for pos, entry := range cs.LogEntries {
 		entrySlice = append(entrySlice, IndexedLogEntry{Position: pos, LogEntry: entry})
 	}
+	slices.SortFunc(entrySlice, func(a, b IndexedLogEntry) int {
+		return cmp.Compare(a.Position, b.Position)
+	})
 	return writeMarshalSlice[uint8](buf, entrySlice, "log entry")
 }
 
-- 
2.43.0


From 0518b611707e7f4279c80f13052784610bf92c90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:08 +0000
Subject: [PATCH 14/50] fix: structs: refuse lengths beyond the end of the
 message

---
 tree/transparency/structs/structs.go | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/tree/transparency/structs/structs.go b/tree/transparency/structs/structs.go
index 4fc6fb7..16717e2 100644
--- a/tree/transparency/structs/structs.go
+++ b/tree/transparency/structs/structs.go
@@ -86,8 +86,20 @@ type sizeParam interface {
 
 func max[S sizeParam]() int { return int(^S(0)) }
 
-func readBytes[S sizeParam](buf *bytes.Buffer) ([]byte, error) {
+// readSize reads the length of a byte string or list, where each element takes
+// up at least one byte.
+func readSize[S sizeParam](buf *bytes.Buffer) (S, error) {
 	size, err := readNumeric[S](buf)
+	if err != nil {
+		return 0, err
+	} else if uint64(size) > uint64(buf.Len()) {
+		return 0, io.ErrUnexpectedEOF
+	}
+	return size, nil
+}
+
+func readBytes[S sizeParam](buf *bytes.Buffer) ([]byte, error) {
+	size, err := readSize[S](buf)
 	if err != nil {
 		return nil, err
 	}
@@ -108,7 +120,7 @@ func writeBytes[S sizeParam](buf *bytes.Buffer, out []byte, name string) error {
 }
 
 func readByteSlice[S sizeParam](buf *bytes.Buffer, n int) ([][]byte, error) {
-	size, err := readNumeric[S](buf)
+	size, err := readSize[S](buf)
 	if err != nil {
 		return nil, err
 	}
@@ -135,7 +147,7 @@ func writeByteSlice[S sizeParam](buf *bytes.Buffer, out [][]byte, name string) e
 }
 
 func readNumericSlice[S sizeParam, T numeric](buf *bytes.Buffer) ([]T, error) {
-	size, err := readNumeric[S](buf)
+	size, err := readSize[S](buf)
 	if err != nil {
 		return nil, err
 	}
@@ -169,7 +181,7 @@ func readFuncSlice[S sizeParam, T any](
 	buf *bytes.Buffer,
 	newF func(*bytes.Buffer) (*T, error),
 ) ([]T, error) {
-	size, err := readNumeric[S](buf)
+	size, err := readSize[S](buf)
 	if err != nil {
 		return nil, err
 	}
-- 
2.43.0


From 24ef82902d23b243399118b8142e0bed694b91f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:10 +0000
Subject: [PATCH 15/50] fix: auditor: refuse a stored state with an empty tree

---
 tree/transparency/auditor/state.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/tree/transparency/auditor/state.go b/tree/transparency/auditor/state.go
index cd273c7..070f4fa 100644
--- a/tree/transparency/auditor/state.go
+++ b/tree/transparency/auditor/state.go
@@ -36,6 +36,8 @@ func NewAuditorState(cs suites.CipherSuite, buf *bytes.Buffer) (*AuditorState, e
 	treeHead, err := structs.NewAuditorTreeHead(buf)
 	if err != nil {
 		return nil, err
+	} else if treeHead.TreeSize == 0 {
+		return nil, errors.New("auditor state has an empty tree")
 	}
 
 	fullSubtrees := make([][]byte, bits.OnesCount64(treeHead.TreeSize))
-- 
2.43.0


From 921739b0107b8f891b36ebdde0802eec34011916 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:05 +0000
Subject: [PATCH 16/50] fix: transparency: send the binary ladder a client
 expects for an unknown label

---
 tree/transparency/transparency.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tree/transparency/transparency.go b/tree/transparency/transparency.go
index 677c3cb..68a47b4 100644
--- a/tree/transparency/transparency.go
+++ b/tree/transparency/transparency.go
@@ -186,7 +186,7 @@ func (t *Tree) Search(
 	)
 	if req.Version == nil {
 		if greatest < 0 {
-			ladder = []uint32{0}
+			ladder = math.SearchBinaryLadder(0, 0, nil, nil)
 			openingAndValue, err = t.getVersion(req.Label, 0)
 		} else {
 			ladder = math.SearchBinaryLadder(uint32(greatest), uint32(greatest), nil, nil)
-- 
2.43.0


From efb0079e7a0086e9f39c6c0c1b8b36abdcb8d840 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:07 +0000
Subject: [PATCH 17/50] fix: transparency: build the state of a client without
 one, keep the auditor's head

---
 tree/transparency/client_crypto.go | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/tree/transparency/client_crypto.go b/tree/transparency/client_crypto.go
index 630155c..8598698 100644
--- a/tree/transparency/client_crypto.go
+++ b/tree/transparency/client_crypto.go
@@ -231,13 +231,15 @@ func (v *verifier) finish() (*structs.ClientState, error) {
 
 	// Compute and return the updated client state.
 	updated := &structs.ClientState{
-		TreeHead:        v.state.TreeHead,
-		AuditorTreeHead: v.fth.AuditorTreeHead,
-		FullSubtrees:    result.FullSubtrees,
-		LogEntries:      result.LogEntries,
+		FullSubtrees: result.FullSubtrees,
+		LogEntries:   result.LogEntries,
 	}
 	if v.fth.TreeHead != nil {
 		updated.TreeHead = *v.fth.TreeHead
+		updated.AuditorTreeHead = v.fth.AuditorTreeHead
+	} else {
+		updated.TreeHead = v.state.TreeHead
+		updated.AuditorTreeHead = v.state.AuditorTreeHead
 	}
 	return updated, nil
 }
-- 
2.43.0


From 0b12c15365069871fe9e79498ab0efb3f98ff08b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:14 +0000
Subject: [PATCH 18/50] fix: transparency: require a new tree head to be larger
 than the retained one

---
 tree/transparency/client_crypto.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tree/transparency/client_crypto.go b/tree/transparency/client_crypto.go
index 8598698..fc91b0c 100644
--- a/tree/transparency/client_crypto.go
+++ b/tree/transparency/client_crypto.go
@@ -144,7 +144,7 @@ func (v *verifier) verifyTreeHead(root, rootP []byte) error {
 	}
 
 	// Verify the size and signature on the tree head.
-	if v.state != nil && v.state.TreeHead.TreeSize <= v.n {
+	if v.state != nil && v.n <= v.state.TreeHead.TreeSize {
 		return errors.New("provided tree size is not greater than advertised")
 	}
 	tbs, err := structs.Marshal(&structs.TreeHeadTBS{
-- 
2.43.0


From ee69210ff49ef816010c62c8765e8ebf5ecb89a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:42 +0000
Subject: [PATCH 19/50] fix: algorithms: accept a version known from several
 sources if they agree

---
 tree/transparency/algorithms/proof_handle.go | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/tree/transparency/algorithms/proof_handle.go b/tree/transparency/algorithms/proof_handle.go
index f78834d..a36f5d7 100644
--- a/tree/transparency/algorithms/proof_handle.go
+++ b/tree/transparency/algorithms/proof_handle.go
@@ -22,8 +22,16 @@ func addVersion(
 		return errors.New("malformed vrf output")
 	} else if commitment != nil && len(commitment) != cs.HashSize() {
 		return errors.New("malformed commitment")
-	} else if _, ok := versions[ver]; ok {
-		return errors.New("can not add the same version twice")
+	} else if existing, ok := versions[ver]; ok {
+		// The same version may come from several sources, like retained state
+		// and a binary ladder. Verify that they agree on what's known.
+		if !bytes.Equal(vrfOutput, existing.VrfOutput) {
+			return errors.New("different vrf outputs for same version found")
+		} else if commitment == nil {
+			commitment = existing.Commitment
+		} else if existing.Commitment != nil && !bytes.Equal(commitment, existing.Commitment) {
+			return errors.New("different commitments for same version found")
+		}
 	}
 	versions[ver] = prefix.Entry{VrfOutput: vrfOutput, Commitment: commitment}
 	return nil
-- 
2.43.0


From 38ab4fe8b4c2c3cb6227457d51480634fbb987ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:29 +0000
Subject: [PATCH 20/50] fix: transparency: allow searches for unknown versions
 with third-party management

---
 tree/transparency/client.go | 14 ++++++++------
 tree/transparency/crypto.go | 13 +++++++++----
 2 files changed, 17 insertions(+), 10 deletions(-)

diff --git a/tree/transparency/client.go b/tree/transparency/client.go
index ea83eaf..d03e782 100644
--- a/tree/transparency/client.go
+++ b/tree/transparency/client.go
@@ -166,12 +166,6 @@ func (c *Client) search(
 			return errors.New("unexpected error occurred")
 		}
 
-		// If a Third-Party Manager is being used, verify `value`.
-		err = verifyUpdateValue(c.config, req.Label, target, res.Value)
-		if err != nil {
-			return err
-		}
-
 		// Verify that the expected number of entries is present in
 		// `binary_ladder` and compute the VRF output for each version.
 		ladder := math.SearchBinaryLadder(target, target, nil, nil)
@@ -199,6 +193,14 @@ func (c *Client) search(
 		if err != nil {
 			return err
 		}
+
+		// If a Third-Party Manager is being used, verify `value`. This is done
+		// after the search because there is no signature for a version that
+		// doesn't exist.
+		err = verifyUpdateValue(c.config, req.Label, target, res.Value)
+		if err != nil {
+			return err
+		}
 		updated, err := v.finish()
 		if err != nil {
 			return err
diff --git a/tree/transparency/crypto.go b/tree/transparency/crypto.go
index 2c58c43..4c7d8f6 100644
--- a/tree/transparency/crypto.go
+++ b/tree/transparency/crypto.go
@@ -75,11 +75,16 @@ func (t *Tree) getVersion(label []byte, ver uint32) (*structs.OpeningAndValue, e
 	if err != nil {
 		return nil, err
 	} else if raw == nil {
-		// Returning a zero value for the commitment opening ensures that the
-		// SearchResponse doesn't end up getting serialized wrong when a search
-		// produces a non-inclusion proof.
+		// Returning a zero value for the commitment opening (and signature, if
+		// Third-Party Management is used) ensures that the SearchResponse
+		// doesn't end up getting serialized wrong when a search produces a
+		// non-inclusion proof.
 		size := t.config.Suite.CommitmentOpeningSize()
-		return &structs.OpeningAndValue{Opening: make([]byte, size)}, nil
+		out := &structs.OpeningAndValue{Opening: make([]byte, size)}
+		if t.config.Mode == structs.ThirdPartyManagement {
+			out.Value.Signature = make([]byte, 0)
+		}
+		return out, nil
 	}
 	buf := bytes.NewBuffer(raw)
 	labelValue, err := structs.NewOpeningAndValue(t.config.Public(), buf)
-- 
2.43.0


From e37fb5dc521344257befff46602955db7ac1ecd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:24 +0000
Subject: [PATCH 21/50] fix: transparency: produce same-head proofs against the
 state the client retained

---
 tree/transparency/transparency.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tree/transparency/transparency.go b/tree/transparency/transparency.go
index 68a47b4..74cc96d 100644
--- a/tree/transparency/transparency.go
+++ b/tree/transparency/transparency.go
@@ -112,7 +112,7 @@ func (t *Tree) fullTreeHead(last *uint64) (fth *structs.FullTreeHead, n uint64,
 		return nil, 0, nil, nil, errors.New("can not operate on an empty tree")
 	} else if last != nil {
 		if *last == t.treeHead.TreeSize {
-			return &structs.FullTreeHead{}, t.treeHead.TreeSize, nil, nil, nil
+			return &structs.FullTreeHead{}, t.treeHead.TreeSize, nil, last, nil
 		} else if *last > t.treeHead.TreeSize {
 			return nil, 0, nil, nil, errors.New("tree size advertised by user is greater than current tree size")
 		}
-- 
2.43.0


From 367e9f7628e5ea6f8a74452e51f49190e6cc6577 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:44 +0000
Subject: [PATCH 22/50] fix: client: verify tree head before reporting that a
 label does not exist

---
 tree/transparency/client.go | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/tree/transparency/client.go b/tree/transparency/client.go
index d03e782..b74a745 100644
--- a/tree/transparency/client.go
+++ b/tree/transparency/client.go
@@ -190,7 +190,17 @@ func (c *Client) search(
 		} else {
 			terminal, err = v.fixedVersionSearch(target)
 		}
-		if err != nil {
+		if err == algorithms.ErrLabelNotFound || err == algorithms.ErrLabelExpired {
+			// The outcome of the search is only meaningful if the rest of the
+			// proof, and the tree head, are valid.
+			updated, finishErr := v.finish()
+			if finishErr != nil {
+				return finishErr
+			} else if putErr := c.putState(updated); putErr != nil {
+				return putErr
+			}
+			return err
+		} else if err != nil {
 			return err
 		}
 
-- 
2.43.0


From 8ce64ad026e13864caad0ccf6f5b02d7ffbeb64b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:22 +0000
Subject: [PATCH 23/50] fix: transparency: write label changes only once a
 mutation can not be refused anymore

---
 tree/transparency/crypto.go | 17 ++++++-------
 tree/transparency/mutate.go | 51 ++++++++++++++++++++++---------------
 2 files changed, 38 insertions(+), 30 deletions(-)

diff --git a/tree/transparency/crypto.go b/tree/transparency/crypto.go
index 4c7d8f6..347a889 100644
--- a/tree/transparency/crypto.go
+++ b/tree/transparency/crypto.go
@@ -96,17 +96,16 @@ func (t *Tree) getVersion(label []byte, ver uint32) (*structs.OpeningAndValue, e
 	return labelValue, nil
 }
 
-// putVersion generates a new commitment opening and sets the given
-// label-version pair to the given value. It returns the new commitment.
-func (t *Tree) putVersion(label []byte, ver uint32, value structs.UpdateValue) ([]byte, error) {
+// newVersion generates a new commitment opening for setting the given
+// label-version pair to the given value. It returns the new commitment, and the
+// data to store in the database for the label-version pair.
+func (t *Tree) newVersion(label []byte, ver uint32, value structs.UpdateValue) (commitment, data []byte, err error) {
 	opening := commitments.GenerateOpening(t.config.Suite)
 
-	// Serialize opening and UpdateValue structure. Write to database.
+	// Serialize opening and UpdateValue structure.
 	labelValue, err := structs.Marshal(&structs.OpeningAndValue{Opening: opening, Value: value})
 	if err != nil {
-		return nil, err
-	} else if err := t.tx.PutVersion(label, ver, labelValue); err != nil {
-		return nil, err
+		return nil, nil, err
 	}
 
 	// Serialize the data that will be committed to and compute the commitment.
@@ -116,9 +115,9 @@ func (t *Tree) putVersion(label []byte, ver uint32, value structs.UpdateValue) (
 		Update:  value,
 	})
 	if err != nil {
-		return nil, err
+		return nil, nil, err
 	}
-	return commitments.Commit(t.config.Suite, opening, commitmentValue), nil
+	return commitments.Commit(t.config.Suite, opening, commitmentValue), labelValue, nil
 }
 
 // computeVrfOutput returns the VRF output for the requested label-version pair
diff --git a/tree/transparency/mutate.go b/tree/transparency/mutate.go
index a4d293f..9811a75 100644
--- a/tree/transparency/mutate.go
+++ b/tree/transparency/mutate.go
@@ -58,14 +58,16 @@ func (t *Tree) Mutate(add []LabelValue, remove [][]byte) (*structs.AuditorUpdate
 	var (
 		prefixAdd    []prefix.Entry
 		prefixRemove [][]byte
+		writes       []func() error
 	)
 	for _, mutation := range mutations {
-		pa, pr, err := t.mutateLabel(n, prevDLE, mutation)
+		pa, pr, w, err := t.mutateLabel(n, prevDLE, mutation)
 		if err != nil {
 			return nil, err
 		}
 		prefixAdd = append(prefixAdd, pa...)
 		prefixRemove = append(prefixRemove, pr...)
+		writes = append(writes, w...)
 	}
 
 	// Sort the new additions and removals by VRF output to avoid accidentally
@@ -83,7 +85,7 @@ func (t *Tree) Mutate(add []LabelValue, remove [][]byte) (*structs.AuditorUpdate
 	}
 
 	// Issue new tree head.
-	if err := t.issueTreeHead(n, timestamp, prefixRoot); err != nil {
+	if err := t.issueTreeHead(n, timestamp, prefixRoot, writes); err != nil {
 		return nil, err
 	}
 
@@ -158,10 +160,15 @@ func (t *Tree) groupByLabel(add []LabelValue, remove [][]byte) ([]labelMutation,
 
 // mutateLabel performs the requested additions and removals for a single label.
 // Version counters are assigned sequentially.
-func (t *Tree) mutateLabel(n uint64, prevDLE *uint64, mut labelMutation) ([]prefix.Entry, [][]byte, error) {
+//
+// The database isn't modified, so that nothing is left behind if the overall
+// mutation is rejected. Instead, the writes to make are returned as the third
+// value.
+func (t *Tree) mutateLabel(n uint64, prevDLE *uint64, mut labelMutation) ([]prefix.Entry, [][]byte, []func() error, error) {
 	var (
 		add    []prefix.Entry
 		remove [][]byte
+		writes []func() error
 
 		label, index = mut.label, mut.index
 	)
@@ -170,22 +177,18 @@ func (t *Tree) mutateLabel(n uint64, prevDLE *uint64, mut labelMutation) ([]pref
 		// The label is not eligible for deletion if it has been modified since
 		// the last distinguished log entry was created.
 		if prevDLE == nil || index[len(index)-1] > *prevDLE {
-			return nil, nil, fmt.Errorf("unable to delete label that was modified recently: %s", label)
+			return nil, nil, nil, fmt.Errorf("unable to delete label that was modified recently: %s", label)
 		}
 
 		// Delete the label's index.
-		if err := t.tx.DeleteIndex(label); err != nil {
-			return nil, nil, err
-		}
+		writes = append(writes, func() error { return t.tx.DeleteIndex(label) })
 
 		// Delete the value and VRF output of each version.
 		for ver := range index {
-			if err := t.tx.DeleteVersion(label, uint32(ver)); err != nil {
-				return nil, nil, err
-			}
+			writes = append(writes, func() error { return t.tx.DeleteVersion(label, uint32(ver)) })
 			vrfOutput, _, err := t.computeVrfOutput(label, uint32(ver))
 			if err != nil {
-				return nil, nil, err
+				return nil, nil, nil, err
 			}
 			remove = append(remove, vrfOutput)
 		}
@@ -198,29 +201,29 @@ func (t *Tree) mutateLabel(n uint64, prevDLE *uint64, mut labelMutation) ([]pref
 
 		vrfOutput, _, err := t.computeVrfOutput(pair.Label, ver)
 		if err != nil {
-			return nil, nil, err
+			return nil, nil, nil, err
 		}
-		commitment, err := t.putVersion(pair.Label, ver, pair.Value)
+		commitment, data, err := t.newVersion(pair.Label, ver, pair.Value)
 		if err != nil {
-			return nil, nil, err
+			return nil, nil, nil, err
 		}
+		writes = append(writes, func() error { return t.tx.PutVersion(pair.Label, ver, data) })
 
 		add = append(add, prefix.Entry{VrfOutput: vrfOutput, Commitment: commitment})
 		index = append(index, n)
 	}
 	if len(mut.add) > 0 {
-		if err := t.putIndex(mut.add[0].Label, index); err != nil {
-			return nil, nil, err
-		}
+		writes = append(writes, func() error { return t.putIndex(mut.add[0].Label, index) })
 	}
 
-	return add, remove, nil
+	return add, remove, writes, nil
 }
 
 // issueTreeHead takes as input the current tree size, the new rightmost
 // timestamp, and the new prefix tree root. It adds a new log entry to the right
-// edge of the log tree and then signs and commits a new tree head.
-func (t *Tree) issueTreeHead(n, timestamp uint64, prefixRoot []byte) error {
+// edge of the log tree, makes the given writes to the database, and then signs
+// and commits a new tree head.
+func (t *Tree) issueTreeHead(n, timestamp uint64, prefixRoot []byte, writes []func() error) error {
 	logEntry := structs.LogEntry{
 		Timestamp:  timestamp,
 		PrefixTree: prefixRoot,
@@ -265,7 +268,13 @@ func (t *Tree) issueTreeHead(n, timestamp uint64, prefixRoot []byte) error {
 	rawTreeHead, err := structs.Marshal(treeHead)
 	if err != nil {
 		return err
-	} else if err := t.tx.PutTreeHead(rawTreeHead); err != nil {
+	}
+	for _, write := range writes {
+		if err := write(); err != nil {
+			return err
+		}
+	}
+	if err := t.tx.PutTreeHead(rawTreeHead); err != nil {
 		return err
 	} else if err := t.tx.Commit(); err != nil {
 		return err
-- 
2.43.0


From 6a168dd026937796c98469429d56c26f41e94c38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:31 +0000
Subject: [PATCH 24/50] fix: db: write the tree head in the same LevelDB batch
 as the data it covers

---
 db/leveldb.go | 11 +++--------
 1 file changed, 3 insertions(+), 8 deletions(-)

diff --git a/db/leveldb.go b/db/leveldb.go
index a060261..0feafaa 100644
--- a/db/leveldb.go
+++ b/db/leveldb.go
@@ -52,11 +52,11 @@ func (c *ldbConn) Commit() error {
 		panic("connection is readonly")
 	}
 
+	// The tree head is written in the same batch as everything it covers, so
+	// that the database can't be left with one but not the other.
 	b := new(leveldb.Batch)
 	for key, value := range c.batch {
-		if key == leveldbTreeHeadKey {
-			continue
-		} else if value == nil {
+		if value == nil {
 			b.Delete([]byte(key))
 		} else {
 			b.Put([]byte(key), value)
@@ -65,11 +65,6 @@ func (c *ldbConn) Commit() error {
 	if err := c.conn.Write(b, nil); err != nil {
 		return err
 	}
-	if value, ok := c.batch[leveldbTreeHeadKey]; ok {
-		if err := c.conn.Put([]byte(leveldbTreeHeadKey), value, nil); err != nil {
-			return err
-		}
-	}
 
 	c.batch = make(map[string][]byte)
 	return nil
-- 
2.43.0


From 8e662aff3ca84cfdfff506c2a0680a8d9fd9da86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:23 +0000
Subject: [PATCH 25/50] fix: auditor: keep track of recently added entries
 across updates

---
 tree/transparency/auditor/auditor.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/tree/transparency/auditor/auditor.go b/tree/transparency/auditor/auditor.go
index 0688b54..90b509e 100644
--- a/tree/transparency/auditor/auditor.go
+++ b/tree/transparency/auditor/auditor.go
@@ -107,6 +107,7 @@ func (a *Auditor) updateState(
 	if a.state != nil {
 		n = a.state.TreeHead.TreeSize
 		fullSubtrees = a.state.FullSubtrees
+		inserted = a.state.Inserted
 	}
 
 	// Compute the new set of full subtrees of the log tree.
-- 
2.43.0


From 8f9a9f445447f82371f765e3bed0f03042f763fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:24 +0000
Subject: [PATCH 26/50] fix: auditor: require that the first update starts from
 an empty prefix tree

---
 tree/transparency/auditor/auditor.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/tree/transparency/auditor/auditor.go b/tree/transparency/auditor/auditor.go
index 90b509e..7b515ab 100644
--- a/tree/transparency/auditor/auditor.go
+++ b/tree/transparency/auditor/auditor.go
@@ -231,7 +231,12 @@ func (a *Auditor) Process(update *structs.AuditorUpdate) error {
 	before, after, err := prefix.EvaluateBeforeAfter(a.config.Suite, update.Added, update.Removed, &update.Proof)
 	if err != nil {
 		return err
-	} else if a.state != nil && !bytes.Equal(before, a.state.PrefixTree) {
+	}
+	expected := make([]byte, a.config.Suite.HashSize()) // Root of an empty prefix tree.
+	if a.state != nil {
+		expected = a.state.PrefixTree
+	}
+	if !bytes.Equal(before, expected) {
 		return errors.New("prefix tree root does not match expected")
 	}
 
-- 
2.43.0


From 81206ee5d3e73d5e1abce276169042feaac7c734 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:26 +0000
Subject: [PATCH 27/50] fix: auditor: keep a new signature only once it was
 persisted

---
 tree/transparency/auditor/auditor.go | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/tree/transparency/auditor/auditor.go b/tree/transparency/auditor/auditor.go
index 7b515ab..0f85769 100644
--- a/tree/transparency/auditor/auditor.go
+++ b/tree/transparency/auditor/auditor.go
@@ -268,18 +268,24 @@ func (a *Auditor) Commit() (*structs.AuditorTreeHead, error) {
 	if err != nil {
 		return nil, err
 	}
-	a.state.TreeHead.Signature, err = a.auditorKey.Sign(tbs)
+	signature, err := a.auditorKey.Sign(tbs)
 	if err != nil {
 		return nil, err
 	}
 
-	// Serialize the auditor's state and commit it to the database.
-	raw, err := a.state.Marshal()
+	// Serialize the auditor's state and commit it to the database. The signature
+	// is only kept once this has succeeded, so that a tree head which was never
+	// persisted isn't returned by a later call.
+	state := *a.state
+	state.TreeHead.Signature = signature
+
+	raw, err := state.Marshal()
 	if err != nil {
 		return nil, err
 	} else if err := a.tx.PutState(raw); err != nil {
 		return nil, err
 	}
+	a.state = &state
 
 	return &a.state.TreeHead, nil
 }
-- 
2.43.0


From 5c245f1eaf8e880ee5e2d0e765d2067ca76a74c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:29 +0000
Subject: [PATCH 28/50] fix: client: accept monitoring responses that end all
 monitoring of a label

---
 tree/transparency/algorithms/monitor.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/tree/transparency/algorithms/monitor.go b/tree/transparency/algorithms/monitor.go
index e215073..fa7c011 100644
--- a/tree/transparency/algorithms/monitor.go
+++ b/tree/transparency/algorithms/monitor.go
@@ -24,7 +24,12 @@ func NewContactState(entries []structs.MonitorMapEntry) *ContactState {
 	return &ContactState{Ptrs: ptrs}
 }
 
+// Struct returns the state as it's encoded. The state may be nil, which is how
+// Monitor indicates that no future monitoring is required.
 func (cs *ContactState) Struct() []structs.MonitorMapEntry {
+	if cs == nil {
+		return nil
+	}
 	out := make([]structs.MonitorMapEntry, 0, len(cs.Ptrs))
 	for pos, ver := range cs.Ptrs {
 		out = append(out, structs.MonitorMapEntry{Position: pos, Version: ver})
-- 
2.43.0


From 1400c080012cbb1b7d90c520f08a59b270294030 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:06 +0000
Subject: [PATCH 29/50] fix: client: recommend monitoring a label only when it
 makes progress

---
 tree/transparency/client.go        | 27 ++++++++-------------------
 tree/transparency/client_crypto.go | 23 ++++++++++++++++++-----
 2 files changed, 26 insertions(+), 24 deletions(-)

diff --git a/tree/transparency/client.go b/tree/transparency/client.go
index b74a745..a9285a5 100644
--- a/tree/transparency/client.go
+++ b/tree/transparency/client.go
@@ -98,7 +98,6 @@ func (c *Client) putLabelState(
 	updated *structs.ClientState,
 	label []byte,
 	updatedLabel *structs.ClientLabelState,
-	terminal uint64,
 ) error {
 	raw, err := structs.Marshal(updated)
 	if err != nil {
@@ -111,7 +110,7 @@ func (c *Client) putLabelState(
 			return err
 		}
 	}
-	return c.tx.PutLabelState(raw, label, rawLabel, terminal)
+	return c.tx.PutLabelState(raw, label, rawLabel, monitoringTerminal(updatedLabel))
 }
 
 // GreatestVersionSearch returns a SearchRequest for the greatest version of
@@ -234,13 +233,11 @@ func (c *Client) search(
 		} else if err := v.addLabelState(labelState); err != nil {
 			return err
 		}
-		terminal, err = updateContactState(labelState, terminal, v.n, target)
-		if err != nil {
-			return err
-		} else if err := updateRetainedVersions(labelState, v.handle); err != nil {
+		updateContactState(labelState, terminal, v.n, target)
+		if err := updateRetainedVersions(labelState, v.handle); err != nil {
 			return err
 		}
-		return c.putLabelState(updated, req.Label, labelState, terminal)
+		return c.putLabelState(updated, req.Label, labelState)
 	}
 }
 
@@ -324,7 +321,7 @@ func (c *Client) ownerInit(
 		} else if err := updateRetainedVersions(labelState, v.handle); err != nil {
 			return err
 		}
-		return c.putLabelState(updated, req.Label, labelState, req.Start)
+		return c.putLabelState(updated, req.Label, labelState)
 	}
 }
 
@@ -414,15 +411,7 @@ func (c *Client) contactMonitor(
 		if err := updateRetainedVersions(labelState, v.handle); err != nil {
 			return err
 		}
-
-		terminal, err := v.rightmostDistinguished()
-		if err != nil {
-			return err
-		} else if terminal == nil {
-			return errors.New("unable to compute rightmost distinguished log entry")
-		}
-
-		return c.putLabelState(updated, req.Label, labelState, *terminal)
+		return c.putLabelState(updated, req.Label, labelState)
 	}
 }
 
@@ -468,7 +457,7 @@ func (c *Client) ownerMonitor(
 		if err := updateRetainedVersions(labelState, v.handle); err != nil {
 			return err
 		}
-		return c.putLabelState(updated, req.Label, labelState, labelState.Owner.Starting)
+		return c.putLabelState(updated, req.Label, labelState)
 	}
 }
 
@@ -620,5 +609,5 @@ func (sv *StreamVerifier) Verify(res *structs.UpdateResponse) error {
 		return err
 	}
 
-	return sv.client.putLabelState(updated, sv.req.Label, sv.labelState, sv.labelState.Owner.Starting)
+	return sv.client.putLabelState(updated, sv.req.Label, sv.labelState)
 }
diff --git a/tree/transparency/client_crypto.go b/tree/transparency/client_crypto.go
index fc91b0c..7360328 100644
--- a/tree/transparency/client_crypto.go
+++ b/tree/transparency/client_crypto.go
@@ -3,6 +3,7 @@ package transparency
 import (
 	"bytes"
 	"errors"
+	stdmath "math"
 
 	"github.com/Bren2010/katie/crypto/commitments"
 	"github.com/Bren2010/katie/tree/log"
@@ -365,14 +366,28 @@ func simplifyMonitoringMap(ptrs map[uint64]uint32, n uint64) {
 	}
 }
 
-// updateContactState is used specifically after Search operations. It computes
-// the rightmost terminal log entry for the search, and removes any map entries
+// monitoringTerminal returns the `terminal` value to store with the state of a
+// label. This is the position such that monitoring makes progress once it, or a
+// log entry to its right, is distinguished.
+func monitoringTerminal(state *structs.ClientLabelState) uint64 {
+	terminal := uint64(stdmath.MaxUint64)
+	if state.Owner != nil {
+		terminal = state.Owner.Starting + 1
+	}
+	for _, entry := range state.Contact {
+		terminal = min(terminal, entry.Position)
+	}
+	return terminal
+}
+
+// updateContactState is used specifically after Search operations. It adds the
+// version that was found to the monitoring map, and removes any map entries
 // that no longer need to be monitored as a result of this search.
 func updateContactState(
 	state *structs.ClientLabelState,
 	x, n uint64,
 	ver uint32,
-) (uint64, error) {
+) {
 	contact := algorithms.NewContactState(state.Contact)
 
 	path := append([]uint64{x}, math.RightDirectPath(x, n)...)
@@ -382,12 +397,10 @@ func updateContactState(
 			break
 		}
 		contact.Ptrs[pos] = ver
-		x = pos
 	}
 	simplifyMonitoringMap(contact.Ptrs, n)
 
 	state.Contact = contact.Struct()
-	return x, nil
 }
 
 // updateRetainedVersions recomputes the set of VRF outputs and commitments that
-- 
2.43.0


From 04f77575fbc84951c87dd362e8deea4957e17144 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:45 +0000
Subject: [PATCH 30/50] fix: client: keep the monitoring map sorted by version

---
 tree/transparency/client_crypto.go | 21 ++++++++++++++++++++-
 1 file changed, 20 insertions(+), 1 deletion(-)

diff --git a/tree/transparency/client_crypto.go b/tree/transparency/client_crypto.go
index 7360328..9e25aef 100644
--- a/tree/transparency/client_crypto.go
+++ b/tree/transparency/client_crypto.go
@@ -4,6 +4,7 @@ import (
 	"bytes"
 	"errors"
 	stdmath "math"
+	"slices"
 
 	"github.com/Bren2010/katie/crypto/commitments"
 	"github.com/Bren2010/katie/tree/log"
@@ -361,7 +362,25 @@ func simplifyMonitoringMap(ptrs map[uint64]uint32, n uint64) {
 		}
 
 		if !modified {
-			return
+			break
+		}
+	}
+
+	// The path of a log entry goes through every monitored entry to its right
+	// that has the same or a smaller version, so these are redundant too. The
+	// remaining versions increase from left to right, as servers require.
+	positions := make([]uint64, 0, len(ptrs))
+	for pos := range ptrs {
+		positions = append(positions, pos)
+	}
+	slices.Sort(positions)
+
+	greatest := -1
+	for _, pos := range positions {
+		if ver := int(ptrs[pos]); ver > greatest {
+			greatest = ver
+		} else {
+			delete(ptrs, pos)
 		}
 	}
 }
-- 
2.43.0


From 21acb74b7e4d8e23782d0b0456581c4f75d886f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:52 +0000
Subject: [PATCH 31/50] fix: algorithms: keep the greater version when two
 monitoring paths meet

---
 tree/transparency/algorithms/monitor.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/tree/transparency/algorithms/monitor.go b/tree/transparency/algorithms/monitor.go
index fa7c011..b0c9ef6 100644
--- a/tree/transparency/algorithms/monitor.go
+++ b/tree/transparency/algorithms/monitor.go
@@ -266,7 +266,10 @@ func (m *Monitor) ContactMonitor() error {
 		if err != nil {
 			return err
 		} else if updated != nil {
-			ptrs[*updated] = ver
+			// A greater version may already be monitored at this log entry.
+			if greater, ok := ptrs[*updated]; !ok || greater < ver {
+				ptrs[*updated] = ver
+			}
 		}
 	}
 
-- 
2.43.0


From 2616471df430e10a17a1aa13bd5c06837a51369a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:17 +0000
Subject: [PATCH 32/50] fix: update: initialize the owner's state and compute
 VRF outputs for update proofs

---
 tree/transparency/update.go | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/tree/transparency/update.go b/tree/transparency/update.go
index 831b320..f567c63 100644
--- a/tree/transparency/update.go
+++ b/tree/transparency/update.go
@@ -242,7 +242,8 @@ func (u *updater) next(withValues bool) (*structs.UpdateResponse, error) {
 	if err != nil {
 		return nil, err
 	}
-	ladder, err := u.ladder(u.ver-len(info), u.ver-1)
+	startVer := u.ver - len(info)
+	ladder, err := u.ladder(startVer, u.ver-1)
 	if err != nil {
 		return nil, err
 	}
@@ -261,9 +262,19 @@ func (u *updater) next(withValues bool) (*structs.UpdateResponse, error) {
 	monitor, err := algorithms.NewMonitor(t.config.Public(), n, provider)
 	if err != nil {
 		return nil, err
-	} else if err := monitor.Update(pos, len(info)); err != nil {
+	}
+	monitor.Owner = &algorithms.OwnerState{VerAtStarting: -1, UpcomingVers: u.index[:startVer:startVer]}
+	if err := monitor.Update(pos, len(info)); err != nil {
 		return nil, err
 	}
+	for ver := range handle.RequiredVersions() {
+		vrfOutput, _, err := t.computeVrfOutput(u.label, ver)
+		if err != nil {
+			return nil, err
+		} else if err := handle.AddVersion(ver, vrfOutput); err != nil {
+			return nil, err
+		}
+	}
 	proof, err := provider.Output(n, nP, m)
 	if err != nil {
 		return nil, err
-- 
2.43.0


From ea822612e151789cff7342b428523ec981a21a10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:38 +0000
Subject: [PATCH 33/50] fix: client: check the length of an update's binary
 ladder before using it

---
 tree/transparency/client.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/tree/transparency/client.go b/tree/transparency/client.go
index a9285a5..4d97a13 100644
--- a/tree/transparency/client.go
+++ b/tree/transparency/client.go
@@ -565,6 +565,9 @@ func (sv *StreamVerifier) Verify(res *structs.UpdateResponse) error {
 	// Verify that no commitment is provided for a version greater than or equal
 	// to `startVer`.
 	ladder := updateLadderVersions(startVer, startVer+uint32(len(res.Info)-1))
+	if len(res.BinaryLadder) != len(ladder) {
+		return errors.New("incorrect number of binary ladder steps provided")
+	}
 	for i, ver := range ladder {
 		if ver >= startVer && res.BinaryLadder[i].Commitment != nil {
 			return errors.New("commitment provided when not expected")
-- 
2.43.0


From 039f83669391b4fb5214af3852a43691390eb04d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:39 +0000
Subject: [PATCH 34/50] fix: client: use the commitments of new versions that
 are not in the ladder

---
 tree/transparency/client.go | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/tree/transparency/client.go b/tree/transparency/client.go
index 4d97a13..610c4f8 100644
--- a/tree/transparency/client.go
+++ b/tree/transparency/client.go
@@ -3,6 +3,7 @@ package transparency
 import (
 	"bytes"
 	"errors"
+	"slices"
 
 	"github.com/Bren2010/katie/db"
 	"github.com/Bren2010/katie/tree/transparency/algorithms"
@@ -585,6 +586,19 @@ func (sv *StreamVerifier) Verify(res *structs.UpdateResponse) error {
 	if err != nil {
 		return err
 	}
+	// The VRF output is already retained for new versions that aren't in
+	// `ladder`, but their commitment was not known until now.
+	for ver, commitment := range commitments {
+		if _, ok := slices.BinarySearch(ladder, ver); ok {
+			continue
+		}
+		entry, ok := v.handle.GetVersion(ver)
+		if !ok {
+			return errors.New("required version not found")
+		} else if err := v.handle.AddVersion(ver, entry.VrfOutput, commitment); err != nil {
+			return err
+		}
+	}
 
 	// Verify the proof.
 	if err := v.updateView(); err != nil {
-- 
2.43.0


From a59ed665d2d924801188c17742027417f0e3cd4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:35 +0000
Subject: [PATCH 35/50] fix: algorithms: accept inclusion proofs for several
 versions

---
 tree/transparency/algorithms/proof_handle.go | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/tree/transparency/algorithms/proof_handle.go b/tree/transparency/algorithms/proof_handle.go
index a36f5d7..70e95af 100644
--- a/tree/transparency/algorithms/proof_handle.go
+++ b/tree/transparency/algorithms/proof_handle.go
@@ -205,11 +205,14 @@ func (rph *ReceivedProofHandle) GetInclusionProof(x uint64, vers []uint32) ([]by
 	}
 	proof := rph.inner.PrefixProofs[0]
 
-	// Verify that proof shows inclusion for a single version.
-	if len(proof.Results) != 1 {
+	// Verify that proof shows inclusion for each version.
+	if len(proof.Results) != len(vers) {
 		return nil, errors.New("unexpected number of results present in prefix proof")
-	} else if !proof.Results[0].Inclusion() {
-		return nil, errors.New("unexpected non-inclusion proof provided")
+	}
+	for _, res := range proof.Results {
+		if !res.Inclusion() {
+			return nil, errors.New("unexpected non-inclusion proof provided")
+		}
 	}
 
 	// Evaluate the prefix proof and return.
-- 
2.43.0


From 26bdc3ae43704bc84f42cfeeded26cbe1f7bb327 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:28 +0000
Subject: [PATCH 36/50] fix: client: simplify the monitoring map after an
 update

---
 tree/transparency/client.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/tree/transparency/client.go b/tree/transparency/client.go
index 610c4f8..2d8f2d8 100644
--- a/tree/transparency/client.go
+++ b/tree/transparency/client.go
@@ -618,7 +618,11 @@ func (sv *StreamVerifier) Verify(res *structs.UpdateResponse) error {
 		return err
 	}
 
-	// Update the global and label-specific state.
+	// Update the global and label-specific state. A previous search may have left
+	// entries in the monitoring map that make the new one redundant.
+	if monitor.Contact != nil {
+		simplifyMonitoringMap(monitor.Contact.Ptrs, v.n)
+	}
 	sv.state = updated
 	sv.labelState.Contact = monitor.Contact.Struct()
 	sv.labelState.Owner = monitor.Owner.Struct()
-- 
2.43.0


From 36a900e28153ceccaab130c10fbc3c7916eedea4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:10 +0000
Subject: [PATCH 37/50] fix: client: don't retain commitments that were not
 proven

---
 tree/transparency/algorithms/proof_handle.go | 28 ++++++++++++++++++++
 tree/transparency/client_crypto.go           |  9 ++++---
 2 files changed, 33 insertions(+), 4 deletions(-)

diff --git a/tree/transparency/algorithms/proof_handle.go b/tree/transparency/algorithms/proof_handle.go
index 70e95af..df46a1b 100644
--- a/tree/transparency/algorithms/proof_handle.go
+++ b/tree/transparency/algorithms/proof_handle.go
@@ -88,6 +88,7 @@ type ReceivedProofHandle struct {
 	inner structs.CombinedTreeProof
 
 	versions map[uint32]prefix.Entry
+	verified map[uint32]struct{} // versions with a trustworthy commitment
 	tracker  math.VersionTracker
 }
 
@@ -97,17 +98,33 @@ func NewReceivedProofHandle(cs suites.CipherSuite, inner structs.CombinedTreePro
 		inner: inner,
 
 		versions: make(map[uint32]prefix.Entry),
+		verified: make(map[uint32]struct{}),
 	}
 }
 
 // AddVersion adds the VRF output and commitment corresponding to a version of a
 // label to the ReceivedProofHandle.
 func (rph *ReceivedProofHandle) AddVersion(ver uint32, vrfOutput, commitment []byte) error {
+	if commitment != nil {
+		rph.verified[ver] = struct{}{}
+	}
 	return addVersion(rph.cs, rph.versions, ver, vrfOutput, commitment)
 }
 
+// AddProvidedVersion is the same as AddVersion, except the commitment was
+// provided alongside the proof. It isn't authenticated unless the proof shows
+// that the version exists.
+func (rph *ReceivedProofHandle) AddProvidedVersion(ver uint32, vrfOutput, commitment []byte) error {
+	return addVersion(rph.cs, rph.versions, ver, vrfOutput, commitment)
+}
+
+// GetVersion returns the VRF output of the requested version and, only if it has
+// been authenticated, its commitment.
 func (rph *ReceivedProofHandle) GetVersion(ver uint32) (prefix.Entry, bool) {
 	entry, ok := rph.versions[ver]
+	if _, verified := rph.verified[ver]; !verified {
+		entry.Commitment = nil
+	}
 	return entry, ok
 }
 
@@ -154,6 +171,11 @@ func (rph *ReceivedProofHandle) GetSearchBinaryLadder(x uint64, ver uint32, omit
 		return nil, 0, err
 	}
 
+	for i, result := range proof.Results {
+		if result.Inclusion() {
+			rph.verified[ladder[i]] = struct{}{}
+		}
+	}
 	rph.inner.PrefixProofs = rph.inner.PrefixProofs[1:]
 	rph.tracker.AddResults(x, omit, ladder, proof.Results)
 	return root, res, nil
@@ -194,6 +216,9 @@ func (rph *ReceivedProofHandle) GetMonitoringBinaryLadder(x uint64, ver uint32)
 		return nil, err
 	}
 
+	for _, ver := range ladder {
+		rph.verified[ver] = struct{}{}
+	}
 	rph.inner.PrefixProofs = rph.inner.PrefixProofs[1:]
 	return root, nil
 }
@@ -231,6 +256,9 @@ func (rph *ReceivedProofHandle) GetInclusionProof(x uint64, vers []uint32) ([]by
 		return nil, err
 	}
 
+	for _, ver := range vers {
+		rph.verified[ver] = struct{}{}
+	}
 	rph.inner.PrefixProofs = rph.inner.PrefixProofs[1:]
 	return root, nil
 }
diff --git a/tree/transparency/client_crypto.go b/tree/transparency/client_crypto.go
index 9e25aef..f73987d 100644
--- a/tree/transparency/client_crypto.go
+++ b/tree/transparency/client_crypto.go
@@ -123,11 +123,12 @@ func (v *verifier) processLadder(
 		commitment, ok := manual[ver]
 		if ok && ladder[i].Commitment != nil {
 			return errors.New("commitment provided when not expected")
-		} else if !ok {
-			commitment = ladder[i].Commitment
+		} else if ok {
+			err = v.handle.AddVersion(ver, vrfOutput, commitment)
+		} else {
+			err = v.handle.AddProvidedVersion(ver, vrfOutput, ladder[i].Commitment)
 		}
-
-		if err := v.handle.AddVersion(ver, vrfOutput, commitment); err != nil {
+		if err != nil {
 			return err
 		}
 	}
-- 
2.43.0


From 5aea58878532fc01f31a9647fa8d634dbf7e45a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:11 +0000
Subject: [PATCH 38/50] fix: client: refuse a response if the state changed
 since the request

---
 tree/transparency/client.go        | 51 ++++++++++++++++++++++++++++++
 tree/transparency/client_crypto.go | 13 ++++++++
 2 files changed, 64 insertions(+)

diff --git a/tree/transparency/client.go b/tree/transparency/client.go
index 2d8f2d8..c0c66af 100644
--- a/tree/transparency/client.go
+++ b/tree/transparency/client.go
@@ -114,6 +114,44 @@ func (c *Client) putLabelState(
 	return c.tx.PutLabelState(raw, label, rawLabel, monitoringTerminal(updatedLabel))
 }
 
+// checkState returns an error if the client's state, or that of `label`, is no
+// longer what it was when a request was made. The response can't be processed
+// then, because this would revert the effect of responses to other requests.
+// If `labelState` is nil, only the global state is checked.
+func (c *Client) checkState(
+	state *structs.ClientState,
+	label []byte,
+	labelState *structs.ClientLabelState,
+) error {
+	errChanged := errors.New("client state has changed since request was made")
+
+	current, err := c.getState()
+	if err != nil {
+		return err
+	} else if (current == nil) != (state == nil) {
+		return errChanged
+	} else if current != nil {
+		if same, err := sameEncoding(current, state); err != nil {
+			return err
+		} else if !same {
+			return errChanged
+		}
+	}
+
+	if labelState != nil {
+		currentLabel, err := c.getLabelState(label)
+		if err != nil {
+			return err
+		} else if same, err := sameEncoding(currentLabel, labelState); err != nil {
+			return err
+		} else if !same {
+			return errChanged
+		}
+	}
+
+	return nil
+}
+
 // GreatestVersionSearch returns a SearchRequest for the greatest version of
 // `label` and a function to verify the corresponding SearchResponse.
 func (c *Client) GreatestVersionSearch(label []byte) (
@@ -149,6 +187,9 @@ func (c *Client) search(
 	req *structs.SearchRequest,
 ) VerifyFunc[*structs.SearchResponse] {
 	return func(res *structs.SearchResponse) error {
+		if err := c.checkState(state, req.Label, nil); err != nil {
+			return err
+		}
 		v, err := newVerifier(c.config, state, req.Last, res.FullTreeHead, res.Search)
 		if err != nil {
 			return err
@@ -274,6 +315,9 @@ func (c *Client) ownerInit(
 	req *structs.OwnerInitRequest,
 ) VerifyFunc[*structs.OwnerInitResponse] {
 	return func(res *structs.OwnerInitResponse) error {
+		if err := c.checkState(state, req.Label, labelState); err != nil {
+			return err
+		}
 		v, err := newVerifier(c.config, state, req.Last, res.FullTreeHead, res.Init)
 		if err != nil {
 			return err
@@ -383,6 +427,8 @@ func (c *Client) contactMonitor(
 		res, ok := marsh.(*structs.ContactMonitorResponse)
 		if !ok {
 			return errors.New("expected contact monitor response, unexpected value received")
+		} else if err := c.checkState(state, req.Label, labelState); err != nil {
+			return err
 		}
 
 		// Verify the proof.
@@ -425,6 +471,8 @@ func (c *Client) ownerMonitor(
 		res, ok := marsh.(*structs.OwnerMonitorResponse)
 		if !ok {
 			return errors.New("expected owner monitor response, unexpected value received")
+		} else if err := c.checkState(state, req.Label, labelState); err != nil {
+			return err
 		}
 
 		// Verify the proof.
@@ -554,6 +602,9 @@ func (sv *StreamVerifier) Verify(res *structs.UpdateResponse) error {
 		commitments map[uint32][]byte
 		err         error
 	)
+	if err := sv.client.checkState(sv.state, sv.req.Label, sv.labelState); err != nil {
+		return err
+	}
 	if len(res.Values) == 0 {
 		startVer, commitments, err = sv.verifyValues(sv.req.Values, res)
 	} else {
diff --git a/tree/transparency/client_crypto.go b/tree/transparency/client_crypto.go
index f73987d..7f23fce 100644
--- a/tree/transparency/client_crypto.go
+++ b/tree/transparency/client_crypto.go
@@ -280,6 +280,19 @@ func greatestVersion(owner *structs.LabelOwnerState) *uint32 {
 	return nil
 }
 
+// sameEncoding returns true if `a` and `b` have the same encoding.
+func sameEncoding(a, b structs.Marshaller) (bool, error) {
+	rawA, err := structs.Marshal(a)
+	if err != nil {
+		return false, err
+	}
+	rawB, err := structs.Marshal(b)
+	if err != nil {
+		return false, err
+	}
+	return bytes.Equal(rawA, rawB), nil
+}
+
 func parseLabelState(config *structs.PublicConfig, raw []byte) (*structs.ClientLabelState, error) {
 	if raw == nil {
 		return &structs.ClientLabelState{}, nil
-- 
2.43.0


From 031d99d565736972ae1ab6104114e539c339bbd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:12 +0000
Subject: [PATCH 39/50] fix: client: require an auditor tree head exactly when
 there is an auditor

---
 tree/transparency/client_crypto.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/tree/transparency/client_crypto.go b/tree/transparency/client_crypto.go
index 7f23fce..84b20fa 100644
--- a/tree/transparency/client_crypto.go
+++ b/tree/transparency/client_crypto.go
@@ -161,8 +161,13 @@ func (v *verifier) verifyTreeHead(root, rootP []byte) error {
 	ok := v.config.SignatureKey.Verify(tbs, v.fth.TreeHead.Signature)
 	if !ok {
 		return errors.New("failed to verify tree head signature")
-	} else if v.fth.AuditorTreeHead == nil {
+	} else if v.config.Mode != structs.ThirdPartyAuditing {
+		if v.fth.AuditorTreeHead != nil {
+			return errors.New("auditor tree head provided when not expected")
+		}
 		return nil
+	} else if v.fth.AuditorTreeHead == nil {
+		return errors.New("auditor tree head not provided when expected")
 	}
 
 	// Verify size and signature of the auditor tree head.
-- 
2.43.0


From 7a2b634d08cb332cb6869dcbfdc656927f71f2f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:54 +0000
Subject: [PATCH 40/50] fix: transparency: leave out versions that are newer
 than the tree head

---
 tree/transparency/crypto.go       | 16 ++++++++++++++++
 tree/transparency/monitor.go      |  3 +--
 tree/transparency/transparency.go |  6 +++---
 tree/transparency/update.go       | 11 +++++------
 4 files changed, 25 insertions(+), 11 deletions(-)

diff --git a/tree/transparency/crypto.go b/tree/transparency/crypto.go
index 347a889..21229e9 100644
--- a/tree/transparency/crypto.go
+++ b/tree/transparency/crypto.go
@@ -5,6 +5,7 @@ import (
 	"encoding/binary"
 	"errors"
 	"io"
+	"slices"
 
 	"github.com/Bren2010/katie/crypto/commitments"
 	"github.com/Bren2010/katie/tree/transparency/structs"
@@ -47,6 +48,21 @@ func (t *Tree) batchGetIndex(labels [][]byte) ([][]uint64, error) {
 	return out, nil
 }
 
+// getIndex returns the index of the given label in the current tree. Versions
+// that were added to the database since the tree head was loaded are left out.
+func (t *Tree) getIndex(label []byte) ([]uint64, error) {
+	indices, err := t.batchGetIndex([][]byte{label})
+	if err != nil {
+		return nil, err
+	}
+	n := uint64(0)
+	if t.treeHead != nil {
+		n = t.treeHead.TreeSize
+	}
+	end, _ := slices.BinarySearch(indices[0], n)
+	return indices[0][:end], nil
+}
+
 // putIndex updates the stored index of the label.
 func (t *Tree) putIndex(label []byte, index []uint64) error {
 	compressed := make([]uint64, len(index))
diff --git a/tree/transparency/monitor.go b/tree/transparency/monitor.go
index 4151ed0..495fad6 100644
--- a/tree/transparency/monitor.go
+++ b/tree/transparency/monitor.go
@@ -117,11 +117,10 @@ func (t *Tree) startMonitor(last *uint64, label []byte) (*monitorOp, error) {
 	if err != nil {
 		return nil, err
 	}
-	indices, err := t.batchGetIndex([][]byte{label})
+	index, err := t.getIndex(label)
 	if err != nil {
 		return nil, err
 	}
-	index := indices[0]
 
 	handle := algorithms.NewProducedProofHandle(t.config.Suite, t.tx, index)
 	provider := algorithms.NewDataProvider(t.config.Suite, handle)
diff --git a/tree/transparency/transparency.go b/tree/transparency/transparency.go
index 74cc96d..a4bb1d0 100644
--- a/tree/transparency/transparency.go
+++ b/tree/transparency/transparency.go
@@ -170,13 +170,13 @@ func (t *Tree) Search(
 	}
 
 	// Load label index and determine greatest version that exists, if any.
-	indices, err := t.batchGetIndex([][]byte{req.Label})
+	index, err := t.getIndex(req.Label)
 	if err != nil {
 		return nil, err
 	}
-	greatest := len(indices[0]) - 1
+	greatest := len(index) - 1
 
-	handle := algorithms.NewProducedProofHandle(t.config.Suite, t.tx, indices[0])
+	handle := algorithms.NewProducedProofHandle(t.config.Suite, t.tx, index)
 
 	// Determine which versions we will need VRF outputs for, and also load the
 	// target version of the label.
diff --git a/tree/transparency/update.go b/tree/transparency/update.go
index f567c63..843b8f2 100644
--- a/tree/transparency/update.go
+++ b/tree/transparency/update.go
@@ -98,7 +98,7 @@ func (u *updater) setRequest(req *structs.UpdateRequest) error {
 	for i, val := range req.Values {
 		values[i] = structs.UpdateValue{Value: val.Value}
 	}
-	indices, err := u.tree.batchGetIndex([][]byte{req.Label})
+	index, err := u.tree.getIndex(req.Label)
 	if err != nil {
 		return err
 	}
@@ -106,7 +106,7 @@ func (u *updater) setRequest(req *structs.UpdateRequest) error {
 	u.last = req.Last
 	u.label = req.Label
 	u.values = values
-	u.index = indices[0]
+	u.index = index
 	u.ver = 0
 	if req.GreatestVersion != nil {
 		u.ver = int(*req.GreatestVersion) + 1
@@ -133,7 +133,7 @@ func (u *updater) setManagerRequest(req *structs.ManagerUpdateRequest) error {
 	}
 
 	// Load index and populate updater state.
-	indices, err := u.tree.batchGetIndex([][]byte{req.Label})
+	index, err := u.tree.getIndex(req.Label)
 	if err != nil {
 		return err
 	}
@@ -142,7 +142,7 @@ func (u *updater) setManagerRequest(req *structs.ManagerUpdateRequest) error {
 	u.label = req.Label
 	u.signedVer = &req.SignedVersion
 	u.values = req.Values
-	u.index = indices[0]
+	u.index = index
 	u.ver = 0
 	if req.GreatestVersion != nil {
 		u.ver = int(*req.GreatestVersion) + 1
@@ -337,11 +337,10 @@ func (u *updater) reloadTree(pos uint64) error {
 		return errors.New("reloaded tree does not contain new versions of label")
 	}
 
-	indices, err := u.tree.batchGetIndex([][]byte{u.label})
+	index, err := tree.getIndex(u.label)
 	if err != nil {
 		return err
 	}
-	index := indices[0]
 	if len(index) == 0 || index[len(index)-1] < pos {
 		return errors.New("reloaded index does not contain new versions of label")
 	}
-- 
2.43.0


From bc332b8a31faabb61087216fe3cbcd37c5cdead1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:27 +0000
Subject: [PATCH 41/50] fix: transparency: don't send the values of versions
 that were removed meanwhile

---
 tree/transparency/update.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/tree/transparency/update.go b/tree/transparency/update.go
index 843b8f2..22e5896 100644
--- a/tree/transparency/update.go
+++ b/tree/transparency/update.go
@@ -315,6 +315,15 @@ func (u *updater) infos(pos uint64, withValues bool) ([]structs.LabelValue, []st
 		})
 	}
 
+	// Verify that the label hasn't been removed from the database since its
+	// index was loaded, in which case the values above would be wrong.
+	index, err := u.tree.getIndex(u.label)
+	if err != nil {
+		return nil, nil, err
+	} else if !slices.Equal(index, u.index) {
+		return nil, nil, errors.New("label was removed while processing request")
+	}
+
 	return values, info, nil
 }
 
-- 
2.43.0


From a2abef8cf133d99c044b2aadbd289f0ad51d124b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:08:55 +0000
Subject: [PATCH 42/50] fix: db: don't return an auditor's tree head that is
 newer than the tree head

---
 db/leveldb.go | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/db/leveldb.go b/db/leveldb.go
index 0feafaa..ea19af6 100644
--- a/db/leveldb.go
+++ b/db/leveldb.go
@@ -92,16 +92,18 @@ func (ldb *ldbTransparencyStore) Clone() TransparencyStore {
 }
 
 func (ldb *ldbTransparencyStore) GetTreeHead() ([]byte, []byte, error) {
+	// The auditor's tree head is read first, because it may not be newer than
+	// the tree head if either is replaced in the meantime.
+	auditor, err := ldb.conn.Get("auditor-tree-head")
+	if err != leveldb.ErrNotFound && err != nil {
+		return nil, nil, err
+	}
 	treeHead, err := ldb.conn.Get(leveldbTreeHeadKey)
 	if err == leveldb.ErrNotFound {
 		return nil, nil, nil
 	} else if err != nil {
 		return nil, nil, err
 	}
-	auditor, err := ldb.conn.Get("auditor-tree-head")
-	if err != leveldb.ErrNotFound && err != nil {
-		return nil, nil, err
-	}
 	return treeHead, auditor, nil
 }
 
-- 
2.43.0


From 60c87ede560741f6d737ea312dadc8869a51b38d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:12:47 +0000
Subject: [PATCH 43/50] fix: transparency: refuse managed updates to logs that
 are not managed

---
 tree/transparency/update.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/tree/transparency/update.go b/tree/transparency/update.go
index 22e5896..4eacdff 100644
--- a/tree/transparency/update.go
+++ b/tree/transparency/update.go
@@ -115,6 +115,10 @@ func (u *updater) setRequest(req *structs.UpdateRequest) error {
 }
 
 func (u *updater) setManagerRequest(req *structs.ManagerUpdateRequest) error {
+	if u.tree.config.Mode != structs.ThirdPartyManagement {
+		return errors.New("signed updates are only supported with third-party management")
+	}
+
 	// Verify service operator signatures.
 	for i, val := range req.Values {
 		tbs, err := structs.Marshal(&structs.UpdateTBS{
-- 
2.43.0


From 4a869528ccd3f08ae869352ecc937a49e90ef8ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:12:48 +0000
Subject: [PATCH 44/50] fix: transparency: refuse requests that advertise an
 empty tree

---
 tree/transparency/transparency.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/tree/transparency/transparency.go b/tree/transparency/transparency.go
index a4bb1d0..49cf08e 100644
--- a/tree/transparency/transparency.go
+++ b/tree/transparency/transparency.go
@@ -111,7 +111,9 @@ func (t *Tree) fullTreeHead(last *uint64) (fth *structs.FullTreeHead, n uint64,
 	if t.treeHead == nil {
 		return nil, 0, nil, nil, errors.New("can not operate on an empty tree")
 	} else if last != nil {
-		if *last == t.treeHead.TreeSize {
+		if *last == 0 {
+			return nil, 0, nil, nil, errors.New("tree size advertised by user is invalid")
+		} else if *last == t.treeHead.TreeSize {
 			return &structs.FullTreeHead{}, t.treeHead.TreeSize, nil, last, nil
 		} else if *last > t.treeHead.TreeSize {
 			return nil, 0, nil, nil, errors.New("tree size advertised by user is greater than current tree size")
-- 
2.43.0


From 02bbce65c63f15a646c81898a04b4fe6cad38113 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:13:53 +0000
Subject: [PATCH 45/50] fix: transparency: refuse unsigned updates to managed
 logs

---
 tree/transparency/update.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/tree/transparency/update.go b/tree/transparency/update.go
index 4eacdff..bb13fc4 100644
--- a/tree/transparency/update.go
+++ b/tree/transparency/update.go
@@ -94,6 +94,10 @@ func newUpdater(t *Tree, ctx context.Context, ch chan wire.UpdateResponse) *upda
 }
 
 func (u *updater) setRequest(req *structs.UpdateRequest) error {
+	if len(req.Values) > 0 && u.tree.config.Mode == structs.ThirdPartyManagement {
+		return errors.New("updates must be signed with third-party management")
+	}
+
 	values := make([]structs.UpdateValue, len(req.Values))
 	for i, val := range req.Values {
 		values[i] = structs.UpdateValue{Value: val.Value}
-- 
2.43.0


From 3e48e2f4e9a6532908dce123083721b73295fb86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:55 +0000
Subject: [PATCH 46/50] fix: algorithms: an owner keeps monitoring a looked-up
 version it does not expect

---
 tree/transparency/algorithms/monitor.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/tree/transparency/algorithms/monitor.go b/tree/transparency/algorithms/monitor.go
index b0c9ef6..fc36e91 100644
--- a/tree/transparency/algorithms/monitor.go
+++ b/tree/transparency/algorithms/monitor.go
@@ -200,15 +200,19 @@ func (m *Monitor) contactMonitor(x uint64, ver uint32, previous map[uint64]uint3
 	// Compute the list of log entries to inspect: those on the direct path of
 	// `x` and to its right, stopping just after the first distinguished one.
 	var inspect []uint64
+	covered := stop != nil
 	for _, parent := range math.RightDirectPath(x, m.treeSize) {
 		inspect = append(inspect, parent)
 		if stop != nil && *stop == parent {
 			// If the Contact Monitoring operation is being executed in the
 			// context of an Owner Monitoring operation, and the given log entry
 			// is equal to or to the right of the owner's `start` position, skip
-			// inspecting the final distinguished log entry.
+			// inspecting the final distinguished log entry. Owner Monitoring
+			// inspects it, but shows that the version is still there only if
+			// the owner expects that version or a greater one.
 			if m.Owner != nil && x >= m.Owner.Starting {
 				inspect = inspect[:len(inspect)-1]
+				covered = m.Owner.GreatestVersionAt(parent) >= int(ver)
 			}
 			break
 		}
@@ -231,7 +235,7 @@ func (m *Monitor) contactMonitor(x uint64, ver uint32, previous map[uint64]uint3
 		previous[y] = ver
 	}
 
-	if stop != nil { // We reached a distinguished log entry.
+	if covered { // We reached a distinguished log entry.
 		return nil, nil
 	} else if len(inspect) > 0 { // We moved forward without reaching a DLE.
 		return &inspect[len(inspect)-1], nil
-- 
2.43.0


From 542cf39c5324d69a5a3bf7f4e059d469453e759c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:37:07 +0000
Subject: [PATCH 47/50] fix: db: drop the pending changes of the LevelDB store
 if a commit fails

---
 db/leveldb.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/db/leveldb.go b/db/leveldb.go
index ea19af6..7b4e550 100644
--- a/db/leveldb.go
+++ b/db/leveldb.go
@@ -62,12 +62,12 @@ func (c *ldbConn) Commit() error {
 			b.Put([]byte(key), value)
 		}
 	}
-	if err := c.conn.Write(b, nil); err != nil {
-		return err
-	}
 
+	// Pending changes are dropped even if the write fails. Otherwise, they'd be
+	// visible to later reads and be written along with later, unrelated changes.
 	c.batch = make(map[string][]byte)
-	return nil
+
+	return c.conn.Write(b, nil)
 }
 
 // ldbTransparencyStore implements the TransparencyStore interface over a
-- 
2.43.0


From 9faddfa1ba8427a09832d1ed7097f66ed1e7c590 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:12:34 +0000
Subject: [PATCH 48/50] fix: transparency: refuse more new versions of a label
 than an UpdateResponse can hold

---
 tree/transparency/mutate.go |  5 +++++
 tree/transparency/update.go | 19 +++++++++++++++++++
 2 files changed, 24 insertions(+)

diff --git a/tree/transparency/mutate.go b/tree/transparency/mutate.go
index 9811a75..d6a559d 100644
--- a/tree/transparency/mutate.go
+++ b/tree/transparency/mutate.go
@@ -196,6 +196,11 @@ func (t *Tree) mutateLabel(n uint64, prevDLE *uint64, mut labelMutation) ([]pref
 		index = index[:0]
 	}
 
+	// Otherwise, the label owner could never be informed of the new versions.
+	if err := checkVersionCount(len(index), len(mut.add)); err != nil {
+		return nil, nil, nil, err
+	}
+
 	for _, pair := range mut.add {
 		ver := uint32(len(index))
 
diff --git a/tree/transparency/update.go b/tree/transparency/update.go
index bb13fc4..5810bdb 100644
--- a/tree/transparency/update.go
+++ b/tree/transparency/update.go
@@ -3,6 +3,7 @@ package transparency
 import (
 	"context"
 	"errors"
+	stdmath "math"
 	"slices"
 
 	"github.com/Bren2010/katie/tree/transparency/algorithms"
@@ -75,6 +76,20 @@ func updateLadderVersions(startVer, endVer uint32) []uint32 {
 	return versions
 }
 
+// checkVersionCount returns an error if `count` new versions of a label,
+// starting at `startVer`, are too many to be created in a single log entry. An
+// UpdateResponse covers all versions created in a log entry, but its lists are
+// limited to 255 elements when encoded.
+func checkVersionCount(startVer, count int) error {
+	if count == 0 {
+		return nil
+	} else if count > stdmath.MaxUint8 ||
+		len(updateLadderVersions(uint32(startVer), uint32(startVer+count-1))) > stdmath.MaxUint8 {
+		return errors.New("too many new versions of label requested at once")
+	}
+	return nil
+}
+
 type updater struct {
 	tree *Tree
 	ctx  context.Context
@@ -105,6 +120,8 @@ func (u *updater) setRequest(req *structs.UpdateRequest) error {
 	index, err := u.tree.getIndex(req.Label)
 	if err != nil {
 		return err
+	} else if err := checkVersionCount(len(index), len(req.Values)); err != nil {
+		return err
 	}
 
 	u.last = req.Last
@@ -144,6 +161,8 @@ func (u *updater) setManagerRequest(req *structs.ManagerUpdateRequest) error {
 	index, err := u.tree.getIndex(req.Label)
 	if err != nil {
 		return err
+	} else if err := checkVersionCount(len(index), len(req.Values)); err != nil {
+		return err
 	}
 
 	u.last = req.Last
-- 
2.43.0


From 7c19a2c0e2bcfe0e0a09614c4220feaa487859f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:20:06 +0000
Subject: [PATCH 49/50] fix: client: monitor the entries of large monitoring
 maps in several requests

---
 tree/transparency/client.go        | 20 ++++++++-----
 tree/transparency/client_crypto.go | 48 ++++++++++++++++++++++++++++++
 2 files changed, 60 insertions(+), 8 deletions(-)

diff --git a/tree/transparency/client.go b/tree/transparency/client.go
index c0c66af..6605034 100644
--- a/tree/transparency/client.go
+++ b/tree/transparency/client.go
@@ -398,29 +398,32 @@ func (c *Client) Monitor() (
 		return nil, nil, errors.New("unexpected error occurred")
 	}
 
+	entries, later := contactEntries(labelState.Contact, state.TreeHead.TreeSize)
+
 	if labelState.Owner == nil {
 		req := &structs.ContactMonitorRequest{
 			Last: getLast(state),
 
 			Label:   label,
-			Entries: labelState.Contact,
+			Entries: entries,
 		}
-		return req, c.contactMonitor(state, labelState, req), nil
+		return req, c.contactMonitor(state, labelState, later, req), nil
 	}
 	req := &structs.OwnerMonitorRequest{
 		Last: getLast(state),
 
 		Label:           label,
-		Entries:         labelState.Contact,
+		Entries:         entries,
 		Start:           labelState.Owner.Starting,
 		GreatestVersion: greatestVersion(labelState.Owner),
 	}
-	return req, c.ownerMonitor(state, labelState, req), nil
+	return req, c.ownerMonitor(state, labelState, later, req), nil
 }
 
 func (c *Client) contactMonitor(
 	state *structs.ClientState,
 	labelState *structs.ClientLabelState,
+	later []structs.MonitorMapEntry,
 	req *structs.ContactMonitorRequest,
 ) VerifyFunc[structs.Marshaller] {
 	return func(marsh structs.Marshaller) error {
@@ -444,7 +447,7 @@ func (c *Client) contactMonitor(
 		if err != nil {
 			return err
 		}
-		monitor.Contact = algorithms.NewContactState(labelState.Contact)
+		monitor.Contact = algorithms.NewContactState(req.Entries)
 		if err := monitor.ContactMonitor(); err != nil {
 			return err
 		}
@@ -454,7 +457,7 @@ func (c *Client) contactMonitor(
 		}
 
 		// Update the global and label-specific state.
-		labelState.Contact = monitor.Contact.Struct()
+		labelState.Contact = mergeContact(monitor.Contact, later, v.n)
 		if err := updateRetainedVersions(labelState, v.handle); err != nil {
 			return err
 		}
@@ -465,6 +468,7 @@ func (c *Client) contactMonitor(
 func (c *Client) ownerMonitor(
 	state *structs.ClientState,
 	labelState *structs.ClientLabelState,
+	later []structs.MonitorMapEntry,
 	req *structs.OwnerMonitorRequest,
 ) VerifyFunc[structs.Marshaller] {
 	return func(marsh structs.Marshaller) error {
@@ -488,7 +492,7 @@ func (c *Client) ownerMonitor(
 		if err != nil {
 			return err
 		}
-		monitor.Contact = algorithms.NewContactState(labelState.Contact)
+		monitor.Contact = algorithms.NewContactState(req.Entries)
 		monitor.Owner = algorithms.NewOwnerState(labelState.Owner)
 		if err := monitor.ContactMonitor(); err != nil {
 			return err
@@ -501,7 +505,7 @@ func (c *Client) ownerMonitor(
 		}
 
 		// Update the global and label-specific state.
-		labelState.Contact = monitor.Contact.Struct()
+		labelState.Contact = mergeContact(monitor.Contact, later, v.n)
 		labelState.Owner = monitor.Owner.Struct()
 		if err := updateRetainedVersions(labelState, v.handle); err != nil {
 			return err
diff --git a/tree/transparency/client_crypto.go b/tree/transparency/client_crypto.go
index 84b20fa..ee45454 100644
--- a/tree/transparency/client_crypto.go
+++ b/tree/transparency/client_crypto.go
@@ -418,6 +418,54 @@ func monitoringTerminal(state *structs.ClientLabelState) uint64 {
 	return terminal
 }
 
+// maxMonitorPath is the number of log entries that may be in the direct paths of
+// the monitoring map entries in one request. It's small enough that a response
+// has room for a proof from each of them.
+const maxMonitorPath = 128
+
+// contactEntries splits the monitoring map of a label in two: the leftmost map
+// entries, which will be in the next monitoring request, and the ones that need
+// to wait because there would be too many. `n` is the size of the tree.
+func contactEntries(contact []structs.MonitorMapEntry, n uint64) (now, later []structs.MonitorMapEntry) {
+	paths := make(map[uint64]struct{})
+	for i, entry := range contact {
+		paths[entry.Position] = struct{}{}
+		for _, pos := range math.LeftDirectPath(entry.Position) {
+			paths[pos] = struct{}{}
+		}
+		for _, pos := range math.RightDirectPath(entry.Position, n) {
+			paths[pos] = struct{}{}
+		}
+		if i > 0 && len(paths) > maxMonitorPath {
+			return contact[:i], contact[i:]
+		}
+	}
+	return contact, nil
+}
+
+// mergeContact returns the label's monitoring map after `monitored` is the
+// outcome of monitoring a part of it, and `later` wasn't monitored. `n` is the
+// size of the tree.
+func mergeContact(
+	monitored *algorithms.ContactState,
+	later []structs.MonitorMapEntry,
+	n uint64,
+) []structs.MonitorMapEntry {
+	if len(later) == 0 {
+		return monitored.Struct()
+	}
+	merged := algorithms.NewContactState(later)
+	if monitored != nil {
+		for pos, ver := range monitored.Ptrs {
+			if laterVer, ok := merged.Ptrs[pos]; !ok || laterVer < ver {
+				merged.Ptrs[pos] = ver
+			}
+		}
+	}
+	simplifyMonitoringMap(merged.Ptrs, n)
+	return merged.Struct()
+}
+
 // updateContactState is used specifically after Search operations. It adds the
 // version that was found to the monitoring map, and removes any map entries
 // that no longer need to be monitored as a result of this search.
-- 
2.43.0


From e564b989d8cad425a54533aa5d5694f685a6c876 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:00:22 +0000
Subject: [PATCH 50/50] fix: db/memory: let goroutines read a clone at the same
 time

---
 db/memory/memory.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/db/memory/memory.go b/db/memory/memory.go
index 0eee703..2780a2b 100644
--- a/db/memory/memory.go
+++ b/db/memory/memory.go
@@ -4,6 +4,7 @@ package memory
 import (
 	"errors"
 	"fmt"
+	"sync"
 
 	"github.com/Bren2010/katie/db"
 )
@@ -172,6 +173,8 @@ func (ls *LogStore) Delete(key uint64) error {
 type PrefixStore struct {
 	Data    map[string][]byte
 	Lookups [][]string
+
+	mu sync.Mutex // Protects Lookups.
 }
 
 func NewPrefixStore() *PrefixStore {
@@ -179,7 +182,9 @@ func NewPrefixStore() *PrefixStore {
 }
 
 func (ps *PrefixStore) BatchGet(keys []string) (map[string][]byte, error) {
+	ps.mu.Lock()
 	ps.Lookups = append(ps.Lookups, keys)
+	ps.mu.Unlock()
 
 	out := make(map[string][]byte)
 	for _, key := range keys {
-- 
2.43.0

