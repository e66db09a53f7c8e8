package ctsubmit

import (
	"bytes"
	"context"

	"itko.dev/internal/zzsym"
)

// zzKey16 is an arbitrary hash in one of two buckets.
func zzKey16(tag string, buckets int) (h [16]byte) {
	copy(h[1:], zzsym.Bytes(tag+"tail", 15))
	h[0] = []byte{0x5a, 0xa5, 0x5b}[zzsym.Choice(tag+"bucket", buckets)]
	return h
}

func zzLE(b []byte) uint64 {
	v := uint64(0)
	for i := len(b) - 1; i >= 0; i-- {
		v = v<<8 | uint64(b[i])
	}
	return v
}

func zzLess(a, b []byte) bool { return bytes.Compare(a, b) < 0 }

type zzRec struct {
	h   [16]byte
	idx uint64
	ts  int64
}

// zzIndexSetup makes an index object holding records sorted by hash.
func zzIndexSetup(st *zzStore, dir string, n int, mask int, size int) []zzRec {
	var recs []zzRec
	var data []byte
	for i := 0; i < n; i++ {
		r := zzRec{idx: zzsym.U64("oidx"), ts: zzsym.I64("ots")}
		zzsym.Assume(r.idx < 1<<40)
		copy(r.h[:], zzsym.Bytes("ohash", 16))
		r.h[0] = 0x5a
		if i > 0 {
			zzsym.Assume(zzLess(recs[i-1].h[:], r.h[:]))
		}
		recs = append(recs, r)
		data = append(data, r.h[:]...)
		for k := 0; k < 5; k++ {
			data = append(data, byte(r.idx>>(8*k)))
		}
		for k := 0; k < 8 && size == 29; k++ {
			data = append(data, byte(uint64(r.ts)>>(8*k)))
		}
	}
	if n > 0 {
		st.put("int/"+dir+"/"+zzMaskPath(0x5a, mask), data)
	}
	return recs
}

// zzMaskPath is the path of the bucket of a hash for the masks used here (0, 1 or 2 hex digits).
func zzMaskPath(b byte, mask int) string {
	const hex = "0123456789abcdef"
	switch mask {
	case 0:
		return ""
	case 1:
		return hex[b>>4 : b>>4+1]
	}
	return hex[b>>4:b>>4+1] + hex[b&15:b&15+1]
}

func zzFirst(recs []zzRec, h [16]byte) (int, bool) {
	for i := range recs {
		if zzsym.EqBytes(recs[i].h[:], h[:]) {
			return i, true
		}
	}
	return 0, false
}

// zzSorted asserts an index object is a sorted sequence of whole records.
func zzObjects(st *zzStore, dir string, size int, id string) int {
	total := 0
	for _, o := range st.objs {
		if len(o.key) < len(dir) || o.key[:len(dir)] != dir {
			continue
		}
		zzsym.Assert(len(o.data)%size == 0, id+": an index object is not a whole number of records")
		n := len(o.data) / size
		total += n
		for i := 1; i < n; i++ {
			zzsym.Assert(bytes.Compare(o.data[(i-1)*size:(i-1)*size+16], o.data[i*size:i*size+16]) <= 0, id+": an index object is not sorted")
		}
	}
	return total
}

func zzMasks() int {
	if m := zzsym.Param("mask", -1); m >= 0 {
		return m
	}
	return []int{0, 1, 2}[zzsym.Choice("mask", 3)]
}

// VerifRecordHashes: C13.
func VerifRecordHashes() {
	ctx := context.Background()
	st := &zzStore{}
	b := Bucket{S: st}
	mask := zzMasks()
	recs := zzIndexSetup(st, "hashes", zzsym.Choice("old", zzsym.Param("old", 2)+1), mask, 21)
	batches := 1 + zzsym.Choice("batches", zzsym.Param("batches", 2))
	for k := 0; k < batches; k++ {
		n := zzsym.Choice("n", min(zzsym.Param("n", 2), zzsym.Param("total", 3)-len(recs))+1)
		var up []RecordHashUpload
		for i := 0; i < n; i++ {
			r := zzRec{h: zzKey16("k", 2), idx: zzsym.U64("idx")}
			zzsym.Assume(r.idx < 1<<40)
			// leaf hashes of different entries differ in their first 16 bytes (truncated SHA-256 collisions excluded)
			_, dup := zzFirst(recs, r.h)
			zzsym.Assume(!dup)
			recs = append(recs, r)
			up = append(up, RecordHashUpload{hash: r.h, leafIndex: r.idx})
		}
		err := b.PutRecordHashes(ctx, up, mask)
		zzsym.Assert(err == nil, "C13: storing record hashes failed on working storage")
	}
	zzsym.Assert(zzObjects(st, "int/hashes/", 21, "C13") == len(recs), "C13: index objects hold a different number of records than were stored")
	for _, r := range recs {
		got, err := b.GetRecordHash(ctx, r.h, mask)
		zzsym.Assert(err == nil, "C13: a stored record hash is not found")
		zzsym.Assert(got.leafIndex == r.idx, "C13: a record hash is found at another index than stored")
	}
	zzsym.Reach("records")
	q := zzKey16("q", 3)
	if _, stored := zzFirst(recs, q); !stored {
		_, err := b.GetRecordHash(ctx, q, mask)
		zzsym.Reach("unknown")
		zzsym.Assert(err != nil, "C13: a record hash never stored is found")
	}
}

// VerifDedupe: C14.
func VerifDedupe() {
	ctx := context.Background()
	st := &zzStore{}
	b := Bucket{S: st}
	mask := zzMasks()
	recs := zzIndexSetup(st, "dedupe", zzsym.Choice("old", zzsym.Param("old", 2)+1), mask, 29)
	batches := 1 + zzsym.Choice("batches", zzsym.Param("batches", 2))
	for k := 0; k < batches; k++ {
		n := zzsym.Choice("n", min(zzsym.Param("n", 2), zzsym.Param("total", 3)-len(recs))+1)
		var up []DedupeUpload
		for i := 0; i < n; i++ {
			r := zzRec{h: zzKey16("k", 2), idx: zzsym.U64("idx"), ts: zzsym.I64("ts")}
			zzsym.Assume(r.idx < 1<<40)
			recs = append(recs, r)
			up = append(up, DedupeUpload{hash: r.h, leafIndex: r.idx, timestamp: r.ts})
		}
		err := b.PutDedupeEntries(ctx, up, mask)
		zzsym.Assert(err == nil, "C14: storing dedupe entries failed on working storage")
	}
	zzObjects(st, "int/dedupe/", 29, "C14")
	for _, r := range recs {
		got, err := b.GetDedupeEntry(ctx, r.h, mask)
		zzsym.Assert(err == nil, "C14: a stored fingerprint is not found")
		i, _ := zzFirst(recs, r.h)
		zzsym.Assert(got.leafIndex == recs[i].idx, "C14: a fingerprint is found with another index than the first stored")
		zzsym.Assert(got.timestamp == recs[i].ts, "C14: a fingerprint is found with another timestamp than the first stored")
	}
	zzsym.Reach("records")
	q := zzKey16("q", 3)
	if _, stored := zzFirst(recs, q); !stored {
		_, err := b.GetDedupeEntry(ctx, q, mask)
		zzsym.Reach("unknown")
		zzsym.Assert(err != nil, "C14: a fingerprint never stored is found")
	}
}

// VerifIndexLarge: C13, C14, an object of many records, most of them concrete; records are added and looked up at its ends,
// in its middle and where the number of records overflows a byte or two.
func VerifIndexLarge() {
	ctx := context.Background()
	st := &zzStore{}
	b := Bucket{S: st}
	dedupe := zzsym.Param("dedupe", 0) == 1
	dir, size, id := "hashes", 21, "C13"
	if dedupe {
		dir, size, id = "dedupe", 29, "C14"
	}
	n := []int{300, 66000, 40, 9000}[zzsym.Choice("records", zzsym.Param("counts", 2))]
	hash := func(at int) (h [16]byte) { // of the record before which at-1 others are
		h[0], h[1], h[2], h[3] = 0x5a, byte(at>>16), byte(at>>8), byte(at)
		return h
	}
	probe := []int{0, 1, n / 2, 127, 128, 254, 255, 256, 257, 65534, 65535, 65536, n - 1}
	if n > 1<<16 {
		probe = []int{65535}
	}
	data := make([]byte, 0, n*size)
	var recs []zzRec
	for i := 0; i < n; i++ {
		r := zzRec{h: hash(2*i + 1), idx: uint64(i) * 7, ts: int64(i)}
		for _, p := range probe {
			if p == i {
				r.idx, r.ts = zzsym.U64("oidx"), zzsym.I64("ots")
				zzsym.Assume(r.idx < 1<<40)
				recs = append(recs, r)
				break
			}
		}
		data = append(data, r.h[:]...)
		for k := 0; k < 5; k++ {
			data = append(data, byte(r.idx>>(8*k)))
		}
		for k := 0; k < 8 && dedupe; k++ {
			data = append(data, byte(uint64(r.ts)>>(8*k)))
		}
	}
	st.put("int/"+dir+"/5a", data)
	ats, tail := zzsym.Param("ats", 6), 12
	added := 1 + zzsym.Choice("added", zzsym.Param("added", 2))
	if n > 1<<16 {
		zzsym.Assume(added == 1)
		ats, tail = 1, 0
	}
	var up []RecordHashUpload
	var dup []DedupeUpload
	for i := 0; i < added; i++ {
		at := n
		if ats > 1 {
			at = []int{0, n, n / 2, 128, 256, 65536, 1, 255}[zzsym.Choice("at", ats)]
		}
		zzsym.Assume(at <= n)
		r := zzRec{h: hash(2 * at), idx: zzsym.U64("idx"), ts: zzsym.I64("ts")}
		copy(r.h[4:], zzsym.Bytes("tail", tail))
		zzsym.Assume(r.idx < 1<<40)
		_, known := zzFirst(recs, r.h)
		zzsym.Assume(!known)
		recs = append(recs, r)
		up = append(up, RecordHashUpload{hash: r.h, leafIndex: r.idx})
		dup = append(dup, DedupeUpload{hash: r.h, leafIndex: r.idx, timestamp: r.ts})
	}
	if dedupe {
		zzsym.Assert(b.PutDedupeEntries(ctx, dup, 2) == nil, "C14: storing dedupe entries failed on working storage")
	} else {
		zzsym.Assert(b.PutRecordHashes(ctx, up, 2) == nil, "C13: storing record hashes failed on working storage")
	}
	o, err := st.Get(ctx, "int/"+dir+"/5a")
	zzsym.Assert(err == nil && len(o) == (n+added)*size, id+": a large index object holds a different number of records than were stored")
	for i := 1; i < n+added; i++ {
		// all but the records added are concrete
		zzsym.Assert(bytes.Compare(o[(i-1)*size:(i-1)*size+16], o[i*size:i*size+16]) <= 0, id+": a large index object is not sorted")
	}
	for _, r := range recs {
		var idx uint64
		var ts int64
		var err error
		if dedupe {
			var d DedupeUpload
			d, err = b.GetDedupeEntry(ctx, r.h, 2)
			idx, ts = d.leafIndex, d.timestamp
		} else {
			var d RecordHashUpload
			d, err = b.GetRecordHash(ctx, r.h, 2)
			idx, ts = d.leafIndex, r.ts
		}
		zzsym.Assert(err == nil, id+": a record of a large index object is not found")
		zzsym.Assert(idx == r.idx && ts == r.ts, id+": a record of a large index object is found with other values than stored")
	}
	zzsym.Reach("records")
}

// VerifIndexFault: one storage operation fails while records are added; what was there before is still found, and success is
// reported only if everything is stored.
func VerifIndexFault() {
	ctx := context.Background()
	st := &zzStore{}
	b := Bucket{S: st}
	mask := zzMasks()
	dedupe := zzsym.Param("dedupe", 0) == 1
	dir, size, id := "hashes", 21, "C13"
	if dedupe {
		dir, size, id = "dedupe", 29, "C14"
	}
	recs := zzIndexSetup(st, dir, zzsym.Choice("old", zzsym.Param("old", 2)+1), mask, size)
	n := 1 + zzsym.Choice("n", zzsym.Param("n", 2))
	var add []zzRec
	for i := 0; i < n; i++ {
		r := zzRec{h: zzKey16("k", 2), idx: zzsym.U64("idx"), ts: zzsym.I64("ts")}
		zzsym.Assume(r.idx < 1<<40)
		_, dup := zzFirst(append(recs, add...), r.h)
		zzsym.Assume(!dup)
		add = append(add, r)
	}
	put := func() error {
		if dedupe {
			var up []DedupeUpload
			for _, r := range add {
				up = append(up, DedupeUpload{hash: r.h, leafIndex: r.idx, timestamp: r.ts})
			}
			return b.PutDedupeEntries(ctx, up, mask)
		}
		var up []RecordHashUpload
		for _, r := range add {
			up = append(up, RecordHashUpload{hash: r.h, leafIndex: r.idx})
		}
		return b.PutRecordHashes(ctx, up, mask)
	}
	find := func(r zzRec) bool {
		if dedupe {
			got, err := b.GetDedupeEntry(ctx, r.h, mask)
			return err == nil && got.leafIndex == r.idx && got.timestamp == r.ts
		}
		got, err := b.GetRecordHash(ctx, r.h, mask)
		return err == nil && got.leafIndex == r.idx
	}
	op, nth, hit := []string{"get", "set"}[zzsym.Choice("op", 2)], zzsym.Choice("nth", 2), false
	count := 0
	st.fail = func(o, key string) bool {
		if o != op {
			return false
		}
		count++
		hit = hit || count == nth+1
		return count == nth+1
	}
	err := put()
	st.fail = nil
	for _, r := range recs {
		zzsym.Assert(find(r), id+": an earlier record is lost when storage fails")
	}
	zzsym.Assert(hit || err == nil, id+": storing records failed on working storage")
	if err == nil {
		for _, r := range add {
			zzsym.Assert(find(r), id+": records are reported as stored that are not")
		}
		zzsym.Reach("stored")
	} else {
		zzsym.Reach("failed")
	}
}
