package ctmonitor

import (
	"encoding/base64"

	"itko.dev/internal/zzref"
	"itko.dev/internal/zzsym"
)

// zzSize chooses a tree size: small ones, and those around tile boundaries of both levels.
func zzSizes(tag string) int64 {
	small := zzsym.Param("small", 5)
	big := []int64{257, 65793, 256, 513, 65537, 255, 512, 65536, 65792, 131329}[:zzsym.Param("big", 10)]
	big = append(big, []int64{1<<32 + 2, 1<<40 - 1, 1<<24 + 257, 1<<33 + 1<<16 + 1, 1<<39 + 3}[:zzsym.Param("huge", 5)]...)
	c := zzsym.Choice(tag, small+len(big))
	if c < small {
		return int64(c + 1)
	}
	return big[c-small]
}

// zzIndex chooses an index below n: all of small trees, boundary ones of large trees.
func zzIndex(tag string, n int64) int64 {
	if n <= 8 {
		return int64(zzsym.Choice(tag, int(n)))
	}
	var c []int64
	for _, x := range []int64{0, 1, 128, 254, 255, 256, 511, 65535, 65536, 1 << 24, 1 << 32, n - 2, n - 1} {
		ok := x < n
		for _, y := range c {
			if x == y {
				ok = false
			}
		}
		if ok {
			c = append(c, x)
		}
	}
	return c[zzsym.Choice(tag, len(c))]
}

// VerifProofByHash: C18, every entry of the published tree.
func VerifProofByHash() {
	size := zzSizes("size")
	idx := zzIndex("index", size)
	w := zzNewWorld(size)
	w.expand(idx)
	w.expand(size - 1)
	want := size
	if size > 2 && zzsym.Choice("older", 2) == 1 {
		// a proof in an older tree
		want = max(idx+1, size-[]int64{1, 2}[zzsym.Choice("olderby", 2)])
		w.pubs = append(w.pubs, want)
		w.expand(want - 1)
	}
	if zzsym.Choice("interrupted", 2) == 1 {
		w.pubs = append(w.pubs, size+[]int64{1, 255}[zzsym.Choice("by", 2)])
	}
	leaf := w.hash(0, idx)
	// other records of the same bucket
	for i := 0; i < zzsym.Choice("others", zzsym.Param("others", 1)+1); i++ {
		o := w.atom(9, idx+int64(2*i))
		zzsym.Assume(zzsym.Not(zzsym.EqBytes(o[:16], leaf[:16])))
		w.record(o, 3)
	}
	w.record(leaf, idx)
	w.publish(false, nil)
	w.askProof(idx, want)
}

// askProof asks for the proof of an entry of a published tree.
func (w *zzWorld) askProof(idx, want int64) {
	leaf := w.hash(0, idx)
	r := w.get("/ct/v1/get-proof-by-hash", "hash", base64.StdEncoding.EncodeToString(leaf[:]), "tree_size", zzDec(want))
	zzsym.Reach("asked")
	zzsym.Assert(r.code == 200, "C13,C18: no proof for an entry of a published tree")
	var p struct {
		LeafIndex int64    `json:"leaf_index"`
		AuditPath [][]byte `json:"audit_path"`
	}
	zzDecode(r.body, &p, "C18: the answer is not JSON")
	zzsym.Assert(p.LeafIndex == idx, "C13,C18: the answer has another index than the entry")
	got, ok := zzref.InclusionRoot(leaf, idx, want, zzHashes(p.AuditPath, "C18: an audit path element is not 32 bytes"))
	root := w.root(want)
	zzsym.Assert(ok, "C18: the audit path has the wrong length")
	zzsym.Assert(zzsym.EqBytes(got[:], root[:]), "C18: the audit path does not lead to the root of the tree")
}

// VerifProofLarge: C13, C18, an index object with many other records.
func VerifProofLarge() {
	w := zzNewWorld(3)
	w.expand(0)
	w.record(w.hash(0, 1), 1)
	if zzsym.Choice("other", 2) == 1 {
		a, b := w.hash(0, 1), w.atom(9, 3)
		zzsym.Assume(zzsym.Not(zzsym.EqBytes(a[:16], b[:16])))
		w.record(b, 2)
	}
	c := []int{0, 1, 127, 255, 256, 300, 4096, 66000}
	w.fill = [2]int{c[zzsym.Choice("before", len(c))], c[zzsym.Choice("after", len(c))]}
	w.publish(false, nil)
	w.askProof(1, 3)
}

// VerifHashLeftovers: C18, index records that belong to no published entry, any hash, any tree size.
func VerifHashLeftovers() {
	size := int64(zzsym.Choice("size", zzsym.Param("size", 4)) + 1)
	w := zzNewWorld(size)
	w.expand(0)
	ask := int64(zzsym.Choice("ask", int(size)+1) + 1)
	n := zzsym.Choice("records", zzsym.Param("records", 1)+1)
	for i := 0; i < n; i++ {
		// of an entry that was stored but never published, or a truncated hash that happens to be equal
		at := []int64{0, 1, 2, 3, 4, 5, 1<<40 - 1}[zzsym.Choice("at", 7)]
		w.record(w.atom(9, int64(2*i)), at)
	}
	q := w.atom(8, 0)
	if zzsym.Choice("real", 2) == 1 {
		i := int64(zzsym.Choice("index", int(size)))
		w.record(w.hash(0, i), i)
	}
	w.publish(false, nil)
	r := w.get("/ct/v1/get-proof-by-hash", "hash", base64.StdEncoding.EncodeToString(q[:]), "tree_size", zzDec(ask))
	zzsym.Assert(r.code != 0, "C18: no answer")
	if !r.ok() {
		zzsym.Reach("refused")
		return
	}
	zzsym.Reach("answered")
	var p struct {
		LeafIndex int64    `json:"leaf_index"`
		AuditPath [][]byte `json:"audit_path"`
	}
	zzDecode(r.body, &p, "C18: the answer is not JSON")
	got, ok := zzref.InclusionRoot(q, p.LeafIndex, ask, zzHashes(p.AuditPath, "C18: an audit path element is not 32 bytes"))
	zzsym.Assert(ok && ask <= size, "C18: the answer does not fit the tree")
	root := w.root(ask)
	zzsym.Assert(zzsym.EqBytes(got[:], root[:]), "C18: an answer carries a proof that does not verify for the requested hash")
}

// VerifConsistency: C19, all published pairs.
func VerifConsistency() {
	second := zzSizes("second")
	first := zzIndex("first", second+1)
	w := zzNewWorld(second)
	w.expand(second - 1)
	if first > 0 {
		w.expand(first - 1)
	}
	switch zzsym.Choice("sth", 3) {
	case 1:
		// the log has grown since
		w.size = second + []int64{1, 255}[zzsym.Choice("by", 2)]
		w.expand(w.size - 1)
		w.pubs = append(w.pubs, w.size)
	case 2:
		// a batch was interrupted
		w.pubs = append(w.pubs, second+1)
	}
	if first > 0 {
		w.pubs = append(w.pubs, first)
	}
	w.publish(false, nil)
	r := w.get("/ct/v1/get-sth-consistency", "first", zzDec(first), "second", zzDec(second))
	zzsym.Reach("asked")
	zzsym.Assert(r.code == 200, "C19: no proof between two published trees")
	zzConsistent(w, first, second, r.body)
}

func zzConsistent(w *zzWorld, first, second int64, body []byte) {
	var p struct {
		Consistency *[][]byte `json:"consistency"`
	}
	zzDecode(body, &p, "C19: the answer is not JSON")
	zzsym.Assert(p.Consistency != nil, "C19: the answer has no consistency array")
	path := zzHashes(*p.Consistency, "C19: a proof element is not 32 bytes")
	zzsym.Assert(zzref.Consistent(first, second, w.root(first), w.root(second), path), "C19: a consistency proof does not verify")
}

// VerifConsistencyAny: C19, arbitrary sizes, published or not.
func VerifConsistencyAny() {
	size := int64(zzsym.Choice("size", zzsym.Param("size", 5)) + 1)
	w := zzNewWorld(size)
	w.expand(0)
	w.publish(false, nil)
	first, second := zzsym.I64("first"), zzsym.I64("second")
	r := w.get("/ct/v1/get-sth-consistency", "first", zzDec(first), "second", zzDec(second))
	zzsym.Assert(r.code != 0, "C19: no answer")
	bad := zzsym.Any(first < 0, second < 0, first > second, second > size)
	if !r.ok() {
		zzsym.Reach("refused")
		if !bad && second == size {
			// every size up to the width of the last tile can be proved from stored tiles here
			zzsym.Fail("C19: a consistency proof with the current tree is refused")
		}
		return
	}
	zzsym.Reach("answered")
	zzsym.Assert(zzsym.Not(bad), "C19: an invalid pair of sizes is answered")
	zzConsistent(w, int64(zzsym.Conc(int(first))), int64(zzsym.Conc(int(second))), r.body)
}
