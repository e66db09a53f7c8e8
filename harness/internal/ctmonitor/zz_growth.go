package ctmonitor

import (
	"encoding/base64"

	"itko.dev/internal/zzsym"
)

// VerifGrowth: C17 to C20, the tree grows while the monitor runs; what was asked before, answered or not, does not matter.
func VerifGrowth() {
	pairs := [][2]int64{{1, 2}, {3, 5}, {255, 257}, {2, 4}, {256, 258}, {0, 1}, {257, 513}, {65535, 65537}}
	p := pairs[zzsym.Choice("sizes", zzsym.Param("pairs", 4))]
	before, after := p[0], p[1]
	w := zzNewWorld(before)
	for _, i := range []int64{0, before - 1, before, after - 1} {
		if i >= 0 {
			w.expand(i)
		}
	}
	var old []int64 // asked for at both times
	if before > 0 {
		old = append(old, []int64{0, before - 1}[zzsym.Choice("old", 2)])
	}
	added := []int64{before, after - 1}[zzsym.Choice("added", 2)]
	all := append(old[:len(old):len(old)], added)
	for i, x := range all {
		for _, y := range all[:i] {
			a, b := w.hash(0, x), w.hash(0, y)
			zzsym.Assume(zzsym.Not(zzsym.EqBytes(a[:16], b[:16])))
		}
	}
	for _, i := range old {
		w.record(w.hash(0, i), i)
	}
	w.publish(true, nil)
	if zzsym.Choice("asked", 2) == 1 {
		for _, i := range old {
			w.askAll(i, before, 0)
		}
		h := w.hash(0, added)
		r := w.get("/ct/v1/get-proof-by-hash", "hash", base64.StdEncoding.EncodeToString(h[:]), "tree_size", zzDec(before))
		zzsym.Assert(!r.ok(), "C18: a proof is given for an entry that is not in the tree")
		r = w.get("/ct/v1/get-entries", "start", zzDec(added), "end", zzDec(added))
		zzsym.Assert(!r.ok(), "C17: an entry that is not in the tree is returned")
		r = w.get("/ct/v1/get-entry-and-proof", "leaf_index", zzDec(added), "tree_size", zzDec(after))
		zzsym.Assert(!r.ok(), "C20: an entry that is not in the tree is returned")
		r = w.get("/ct/v1/get-sth-consistency", "first", zzDec(before), "second", zzDec(after))
		zzsym.Assert(!r.ok(), "C19: a proof is given for a tree that does not exist")
		zzsym.Reach("asked before")
	}
	w.size = after
	w.pubs = append(w.pubs, after)
	w.record(w.hash(0, added), added)
	w.store(true, nil)
	for _, i := range append(old, added) {
		w.askAll(i, after, before)
	}
	for _, i := range old {
		w.askAll(i, before, 0)
	}
	zzsym.Reach("grown")
}

// askAll asks every endpoint about an entry of a tree.
func (w *zzWorld) askAll(i, size, older int64) {
	w.askProof(i, size)
	end := size - 1
	if size > 1000 {
		end = i
	}
	r := w.get("/ct/v1/get-entries", "start", zzDec(i), "end", zzDec(end))
	zzsym.Assert(r.code == 200, "C17: a request inside the tree is refused")
	zzsym.Assert(w.checkEntries(i, end, r.body) > 0, "C17: no entry although start is inside the tree")
	r = w.get("/ct/v1/get-entry-and-proof", "leaf_index", zzDec(i), "tree_size", zzDec(size))
	zzsym.Assert(r.code == 200, "C20: no answer for an entry of a published tree")
	w.checkEntryAndProof(i, size, r.body)
	r = w.get("/ct/v1/get-sth-consistency", "first", zzDec(older), "second", zzDec(size))
	zzsym.Assert(r.code == 200, "C19: no proof between two published trees")
	zzConsistent(w, older, size, r.body)
}
