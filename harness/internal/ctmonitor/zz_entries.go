package ctmonitor

import (
	"itko.dev/internal/zzref"
	"itko.dev/internal/zzsym"
)

// zzEntry makes entry i arbitrary.
func (w *zzWorld) zzEntry(i int64, chains int) *zzref.Entry {
	e := &zzref.Entry{Index: uint64(i), Timestamp: zzsym.U64("timestamp"), Cert: zzsym.Bytes("cert", 1+zzsym.Choice("certlen", zzsym.Param("certlens", 1)))}
	zzsym.Assume(e.Timestamp < 1<<63)
	if zzsym.Choice("precert", 2) == 1 {
		e.Precert = true
		e.KeyHash = zzsym.Hash("keyhash")
		e.PreCert = zzsym.Bytes("precertificate", 2)
	}
	for n := zzsym.Choice("chain", chains+1); n > 0; n-- {
		e.Chain = append(e.Chain, zzsym.Bytes("issuer", 1+len(e.Chain)))
	}
	w.entries[i] = e
	return e
}

func (w *zzWorld) checkEntry(id string, i int64, leaf, extra []byte) {
	e := w.entry(i)
	zzsym.Assert(zzsym.EqBytes(leaf, e.Leaf()), id+": leaf_input is not the logged Merkle leaf")
	zzsym.Assert(zzsym.EqBytes(extra, e.Extra()), id+": extra_data is not the submitted chain")
}

type zzEntriesResp struct {
	Entries *[]struct {
		LeafInput []byte `json:"leaf_input"`
		ExtraData []byte `json:"extra_data"`
	} `json:"entries"`
}

const zzMaxEntries = 1024

// checkEntries checks a successful get-entries answer and returns the number of entries.
func (w *zzWorld) checkEntries(start, end int64, body []byte) int {
	var p zzEntriesResp
	zzDecode(body, &p, "C17: the answer is not JSON")
	zzsym.Assert(p.Entries != nil, "C17: the answer has no entries array")
	n := int64(len(*p.Entries))
	zzsym.Assert(n <= zzMaxEntries, "C17: more entries than the configured maximum")
	zzsym.Assert(n == 0 || zzsym.All(start+n-1 <= end, start+n-1 < w.size), "C17: entries past the requested end or the end of the tree")
	for i, e := range *p.Entries {
		w.checkEntry("C17", start+int64(i), e.LeafInput, e.ExtraData)
	}
	return int(n)
}

// VerifEntriesAny: C17, every start and end on small trees of arbitrary entries.
func VerifEntriesAny() {
	size := int64(zzsym.Choice("size", zzsym.Param("size", 3)) + 1)
	w := zzNewWorld(size)
	w.expand(0)
	for i := int64(0); i < size; i++ {
		if i < int64(zzsym.Param("focus", 2)) {
			w.zzEntry(i, zzsym.Param("chains", 1))
		}
	}
	if zzsym.Choice("interrupted", 2) == 1 {
		w.pubs = append(w.pubs, size+1)
	}
	w.publish(true, nil)
	start, end := zzsym.I64("start"), zzsym.I64("end")
	r := w.get("/ct/v1/get-entries", "start", zzDec(start), "end", zzDec(end))
	zzsym.Assert(r.code != 0, "C17: no answer")
	bad := zzsym.Any(start < 0, end < 0, start > end, start >= size)
	if !r.ok() {
		zzsym.Reach("refused")
		zzsym.Assert(bad, "C17: a request inside the tree is refused")
		return
	}
	zzsym.Assert(zzsym.Not(bad), "C17: an invalid range is answered")
	n := w.checkEntries(int64(zzsym.Conc(int(start))), end, r.body)
	zzsym.Assert(n > 0, "C17: no entry although start is inside the tree")
	zzsym.Reach("answered")
}

// VerifEntriesTiles: C17 across data tiles and at the maximum.
func VerifEntriesTiles() {
	base := []int64{0, 1<<32 - 256, 1 << 24, 1<<40 - 513}[zzsym.Choice("base", zzsym.Param("bases", 2))] // of a large tree only the end is looked at
	size := base + []int64{257, 256, 258, 513, 512, 511}[zzsym.Choice("size", zzsym.Param("sizes", 3))]
	w := zzNewWorld(size)
	c := []int64{0, 254, 255, 256, 257, 510, 511, 512}
	start := base + c[zzsym.Choice("start", len(c))]
	zzsym.Assume(start < size)
	end := start + []int64{0, 1, 2, 255, 256, 257, 100000}[zzsym.Choice("len", 7)]
	for i := base; i < size; i += 256 {
		w.expand(i)
	}
	for i := size - 3; i < size; i++ {
		w.entries[i] = &zzref.Entry{Index: uint64(i), Timestamp: zzsym.U64("timestamp"), Cert: zzsym.Bytes("cert", 2)}
		zzsym.Assume(w.entries[i].Timestamp < 1<<63)
	}
	if zzsym.Choice("interrupted", 2) == 1 {
		w.pubs = append(w.pubs, size+2)
	}
	w.publish(true, nil)
	r := w.get("/ct/v1/get-entries", "start", zzDec(start), "end", zzDec(end))
	zzsym.Assert(r.code == 200, "C17: a request inside the tree is refused")
	zzsym.Assert(w.checkEntries(start, end, r.body) > 0, "C17: no entry although start is inside the tree")
	zzsym.Reach("answered")
}

// VerifEntriesMax: C17, the maximum number of entries.
func VerifEntriesMax() {
	w := zzNewWorld(1300)
	for i := int64(0); i < w.size; i += 256 {
		w.expand(i)
	}
	start := []int64{0, 255, 200, 1}[zzsym.Choice("start", zzsym.Param("starts", 2))]
	end := start + 1022 + int64(zzsym.Choice("more", zzsym.Param("mores", 4)))
	w.publish(true, nil)
	r := w.get("/ct/v1/get-entries", "start", zzDec(start), "end", zzDec(end))
	zzsym.Assert(r.code == 200, "C17: a request inside the tree is refused")
	zzsym.Assert(w.checkEntries(start, end, r.body) > 0, "C17: no entry although start is inside the tree")
	zzsym.Reach("answered")
}

type zzEntryAndProof struct {
	LeafInput []byte   `json:"leaf_input"`
	ExtraData []byte   `json:"extra_data"`
	AuditPath [][]byte `json:"audit_path"`
}

func (w *zzWorld) checkEntryAndProof(idx, size int64, body []byte) {
	var p zzEntryAndProof
	zzDecode(body, &p, "C20: the answer is not JSON")
	w.checkEntry("C20", idx, p.LeafInput, p.ExtraData)
	leaf := w.hash(0, idx)
	got, ok := zzref.InclusionRoot(leaf, idx, size, zzHashes(p.AuditPath, "C20: an audit path element is not 32 bytes"))
	root := w.root(size)
	zzsym.Assert(ok, "C20: the audit path has the wrong length")
	zzsym.Assert(zzsym.EqBytes(got[:], root[:]), "C20: the audit path does not lead to the root of the tree")
}

// VerifEntryAndProof: C20, every published entry.
func VerifEntryAndProof() {
	size := zzSizes("size")
	idx := zzIndex("index", size)
	w := zzNewWorld(size)
	w.expand(idx)
	w.expand(size - 1)
	want := size
	if size > 2 && zzsym.Choice("older", 2) == 1 {
		want = max(idx+1, size-[]int64{1, 2}[zzsym.Choice("olderby", 2)])
		w.pubs = append(w.pubs, want)
		w.expand(want - 1)
	}
	if zzsym.Choice("interrupted", 2) == 1 {
		w.pubs = append(w.pubs, size+1)
	}
	w.zzEntry(idx, zzsym.Param("chains", 1))
	w.publish(true, nil)
	r := w.get("/ct/v1/get-entry-and-proof", "leaf_index", zzDec(idx), "tree_size", zzDec(want))
	zzsym.Assert(r.code == 200, "C20: no answer for an entry of a published tree")
	zzsym.Reach("answered")
	w.checkEntryAndProof(idx, want, r.body)
}

// VerifEntryAndProofAny: C20, arbitrary index and size.
func VerifEntryAndProofAny() {
	size := int64(zzsym.Choice("size", zzsym.Param("size", 3)) + 1)
	w := zzNewWorld(size)
	w.expand(0)
	for i := int64(0); i < size; i++ {
		w.entries[i] = &zzref.Entry{Index: uint64(i), Timestamp: uint64(i + 5), Cert: zzsym.Bytes("cert", 1), Precert: i == 1, PreCert: []byte{byte(i)}, Chain: [][]byte{zzsym.Bytes("issuer", 1)}}
	}
	w.publish(true, nil)
	idx, ask := zzsym.I64("index"), zzsym.I64("ask")
	r := w.get("/ct/v1/get-entry-and-proof", "leaf_index", zzDec(idx), "tree_size", zzDec(ask))
	zzsym.Assert(r.code != 0, "C20: no answer")
	bad := zzsym.Any(idx < 0, idx >= ask, ask > size)
	if !r.ok() {
		zzsym.Reach("refused")
		if !bad && ask == size {
			zzsym.Fail("C20: an entry of the current tree is refused")
		}
		return
	}
	zzsym.Reach("answered")
	zzsym.Assert(zzsym.Not(bad), "C20: an index or size out of range is answered")
	w.checkEntryAndProof(int64(zzsym.Conc(int(idx))), int64(zzsym.Conc(int(ask))), r.body)
}
