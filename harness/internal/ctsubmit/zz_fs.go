package ctsubmit

import (
	"bytes"
	"context"
	"errors"
	"os"
	"sync"
	"time"

	"itko.dev/internal/zzsym"
)

var zzFsKeys = []string{"checkpoint", "ct/v1/get-sth", "tile/0/000", "tile/0/x001/000.p/3", "int/hashes/ab/cd", "tile/data/000.p/255", "issuer/00ff"}

func zzFsKey(tag string) string { return zzFsKeys[zzsym.Choice(tag, len(zzFsKeys))] }

func zzContent(tag string) []byte {
	return zzsym.Bytes(tag, []int{0, 1, 5}[zzsym.Choice(tag+"len", 3)])
}

// zzThree: three contents; for the first key the first of them may be large, arbitrary at the beginning, at the end and around 64 KiB.
func zzThree(key string) (a, b, c []byte) {
	if key == zzFsKeys[0] && zzsym.Choice("large", 2) == 1 {
		a = make([]byte, []int{70001, 1<<20 + 5}[zzsym.Choice("largelen", 2)])
		for i := range a {
			a[i] = byte(i*7 + i>>8)
		}
		for i, at := range []int{0, 1<<16 - 8, len(a) - 16} {
			copy(a[at:], zzsym.Bytes("a"+string(rune('0'+i)), 16))
		}
		return a, zzsym.Bytes("b", 1), zzsym.Bytes("c", 5)
	}
	return zzContent("a"), zzContent("b"), zzContent("c")
}

// VerifFsReadBack: C24, what was written is read, nothing else changes.
func VerifFsReadBack() {
	ctx := context.Background()
	s := NewFsStorage(zzsym.TempDir())
	k1 := zzFsKey("k1")
	k2 := zzFsKeys[(zzsym.Choice("k2", len(zzFsKeys)-1)+1+zzIndexOf(k1))%len(zzFsKeys)]
	ok, err := s.Exists(ctx, k1)
	zzsym.Assert(err == nil && !ok, "C24: a key never written exists")
	_, err = s.Get(ctx, k1)
	zzsym.Assert(err != nil && errors.Is(err, os.ErrNotExist), "C24: reading a key never written does not report that it does not exist")
	a, b, c := zzThree(k1)
	zzSet(&s, k1, a)
	zzCheckKey(&s, k1, a, "written key")
	ok, err = s.Exists(ctx, k2)
	zzsym.Assert(err == nil && !ok, "C24: writing one key made another exist")
	zzSet(&s, k2, b)
	zzCheckKey(&s, k1, a, "other key")
	zzCheckKey(&s, k2, b, "second key")
	zzSet(&s, k1, c)
	zzCheckKey(&s, k1, c, "overwritten key")
	zzCheckKey(&s, k2, b, "key not overwritten")
	zzsym.Reach("readback")
}

// VerifFsUnreachable: C24, an object that cannot be reached is not taken for one that does not exist.
func VerifFsUnreachable() {
	ctx := context.Background()
	root := zzsym.TempDir() + "/r"
	s := NewFsStorage(root)
	k := zzFsKey("k")
	old := zzContent("old")
	zzSet(&s, k, old)
	if zzsym.Symbolic() {
		zzsym.FsFail(func(op, path string) bool { return true })
	} else {
		// any path through the loop fails, and not for want of the object
		if os.Rename(root, root+".away") != nil || os.Symlink(root, root) != nil {
			panic("zz: cannot make the directory unreachable")
		}
	}
	ok, err := s.Exists(ctx, k)
	zzsym.Assert(err != nil && !ok, "C24: an object that cannot be reached is reported as existing or not existing")
	_, err = s.Get(ctx, k)
	zzsym.Assert(err != nil && !errors.Is(err, os.ErrNotExist), "C24: an object that cannot be reached is read, or reported as not existing")
	err = s.Set(ctx, k, zzContent("new"))
	zzsym.Assert(err != nil, "C24: a write that failed is reported as successful")
	if zzsym.Symbolic() {
		zzsym.FsFail(nil)
	} else if os.Remove(root) != nil || os.Rename(root+".away", root) != nil {
		panic("zz: cannot make the directory reachable")
	}
	zzCheckKey(&s, k, old, "key whose write failed")
	zzsym.Reach("unreachable")
}

func zzIndexOf(k string) int {
	for i := range zzFsKeys {
		if zzFsKeys[i] == k {
			return i
		}
	}
	return 0
}

func zzSet(s Storage, k string, d []byte) {
	in := append([]byte{}, d...)
	err := s.Set(context.Background(), k, d)
	zzsym.Assert(err == nil, "C24: a write to a working file system failed")
	zzsym.Assert(zzsym.EqBytes(in, d), "C24: a write changed the caller's data")
}

func zzCheckKey(s Storage, k string, want []byte, what string) {
	got, err := s.Get(context.Background(), k)
	zzsym.Assert(err == nil, "C24: the "+what+" cannot be read")
	zzsym.Assert(len(got) == len(want), "C24: the "+what+" is read with another length than written")
	zzsym.Assert(zzsym.EqBytes(got, want), "C24: the "+what+" is not read as written")
	ok, err := s.Exists(context.Background(), k)
	zzsym.Assert(err == nil && ok, "C24: the "+what+" does not exist")
}

// zzOneOf asserts that k holds one of the given complete contents (nil: absent).
func zzOneOf(s Storage, k string, allowed [][]byte, msg string) {
	got, err := s.Get(context.Background(), k)
	ok := false
	for _, a := range allowed {
		if a == nil {
			ok = zzsym.Any(ok, err != nil && errors.Is(err, os.ErrNotExist))
		} else {
			ok = zzsym.Any(ok, err == nil && len(got) == len(a) && zzsym.EqBytes(got, a))
		}
	}
	zzsym.Assert(ok, msg)
}

// VerifFsAtomic: C24, crash, write failure or concurrent read at any point of a write.
func VerifFsAtomic() {
	ctx := context.Background()
	root := zzsym.TempDir()
	s := NewFsStorage(root)
	k := zzFsKey("k")
	other := zzFsKeys[(zzIndexOf(k)+1)%len(zzFsKeys)]
	oc := zzsym.Bytes("other", 3)
	zzSet(&s, other, oc)
	var old []byte
	if zzsym.Choice("hasold", 2) == 1 {
		old = zzsym.Bytes("old", 1+zzsym.Choice("oldlen", 4))
		zzSet(&s, k, old)
	}
	nw := zzsym.Bytes("new", 1+zzsym.Choice("newlen", 4))
	limit := zzsym.Choice("limit", len(nw)+1)
	if limit == len(nw) {
		limit = -1
	}
	allowed := [][]byte{old, nw}
	zzsym.FsHook(func() {
		zzsym.Reach("~intermediate point")
		zzOneOf(&s, k, allowed, "C24: at some point of a write the key holds neither the old nor the new contents")
		zzOneOf(&s, other, [][]byte{oc}, "C24: a write disturbs another key")
	})
	zzsym.FsLimit(limit)
	err := s.Set(ctx, k, nw)
	zzsym.FsHook(nil)
	zzsym.FsLimit(-1)
	if err == nil {
		zzsym.Reach("written")
		zzOneOf(&s, k, [][]byte{nw}, "C24: a write reported as successful is not read back")
	} else {
		zzsym.Reach("write failed")
		zzOneOf(&s, k, allowed, "C24: after a failed write the key holds neither the old nor the new contents")
	}
	zzOneOf(&s, other, [][]byte{oc}, "C24: a write disturbs another key")
	if !zzsym.Symbolic() {
		zzFsStress(&s, k, other)
	}
}

// VerifFsInterleaved: C24, a second write runs at any point of a write.
func VerifFsInterleaved() {
	ctx := context.Background()
	s := NewFsStorage(zzsym.TempDir())
	k := zzFsKey("k")
	k2 := k
	if zzsym.Choice("same", 2) == 0 {
		k2 = zzFsKeys[(zzIndexOf(k)+1+zzsym.Choice("k2", len(zzFsKeys)-1))%len(zzFsKeys)]
	}
	a, b := zzsym.Bytes("a", 2), zzsym.Bytes("b", 5)
	at := zzsym.Choice("at", 10)
	n := 0
	var err2 error
	ran := false
	zzsym.FsHook(func() {
		if n == at && !ran {
			ran = true
			err2 = s.Set(ctx, k2, b)
		}
		n++
	})
	err := s.Set(ctx, k, a)
	zzsym.FsHook(nil)
	if ran {
		zzsym.Reach("~interleaved")
		zzsym.Assert(err == nil && err2 == nil, "C24: one of two concurrent writes failed on a working file system")
		if k == k2 {
			zzOneOf(&s, k, [][]byte{a, b}, "C24: after two concurrent writes the key holds the contents of neither")
		} else {
			zzOneOf(&s, k, [][]byte{a}, "C24: a concurrent write to another key corrupts a key")
			zzOneOf(&s, k2, [][]byte{b}, "C24: a concurrent write to another key corrupts a key")
		}
	}
	if !zzsym.Symbolic() {
		zzFsStress(&s, k, k2)
	}
}

// VerifFsReadRace: C24, a complete write runs at any point of a read.
func VerifFsReadRace() {
	ctx := context.Background()
	s := NewFsStorage(zzsym.TempDir())
	k := zzFsKey("k")
	k2 := k
	if zzsym.Choice("same", 2) == 0 {
		k2 = zzFsKeys[(zzIndexOf(k)+1)%len(zzFsKeys)]
	}
	var old []byte
	if zzsym.Choice("hasold", 2) == 1 {
		old = zzsym.Bytes("old", 1+zzsym.Choice("oldlen", 4))
		zzSet(&s, k, old)
	}
	nw := zzsym.Bytes("new", 1+zzsym.Choice("newlen", 4))
	at, n, ran := zzsym.Choice("at", 6), 0, false
	zzsym.FsHook(func() {
		if n == at && !ran {
			ran = true
			zzSet(&s, k2, nw)
		}
		n++
	})
	got, err := s.Get(ctx, k)
	zzsym.FsHook(nil)
	ok := err == nil && old != nil && len(got) == len(old) && zzsym.EqBytes(got, old)
	if old == nil {
		ok = err != nil && errors.Is(err, os.ErrNotExist)
	}
	if ran && k == k2 {
		zzsym.Reach("~written during the read")
		ok = zzsym.Any(ok, err == nil && len(got) == len(nw) && zzsym.EqBytes(got, nw))
	}
	zzsym.Assert(ok, "C24: a concurrent read observes neither the old nor the new contents")
	if !zzsym.Symbolic() {
		zzFsStress(&s, k, k2)
	}
}

// zzFsStress confirms natively what the engine found on its file system model.
func zzFsStress(s *FsStorage, k, other string) {
	ctx := context.Background()
	a := bytes.Repeat([]byte{'a'}, 300000)
	b := bytes.Repeat([]byte{'b'}, 500000)
	zzSet(s, k, a)
	stop := make(chan bool)
	var wg sync.WaitGroup
	for _, d := range [][]byte{a, b} {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for {
				select {
				case <-stop:
					return
				default:
				}
				if err := s.Set(ctx, k, d); err != nil {
					zzsym.Assert(false, "C24: one of two concurrent writes failed on a working file system")
				}
			}
		}()
	}
	end := time.Now().Add(400 * time.Millisecond)
	for time.Now().Before(end) {
		zzOneOf(s, k, [][]byte{a, b}, "C24: a concurrent read observes neither the old nor the new contents")
	}
	close(stop)
	wg.Wait()
	zzOneOf(s, k, [][]byte{a, b}, "C24: after two concurrent writes the key holds the contents of neither")
	for i := 0; i < 300; i++ {
		// all of them have to make the directory
		keys := make([]string, 8)
		for j := range keys {
			keys[j] = "fresh" + string(rune('0'+i%10)) + "/" + string(rune('0'+i/10)) + "/" + string(rune('a'+j))
			wg.Add(1)
			go func() {
				defer wg.Done()
				err := s.Set(ctx, keys[j], []byte{byte(i), byte(j)})
				zzsym.Assert(err == nil, "C24: one of two concurrent writes failed on a working file system")
			}()
		}
		wg.Wait()
		for j := range keys {
			zzOneOf(s, keys[j], [][]byte{{byte(i), byte(j)}}, "C24: a concurrent write to another key corrupts a key")
		}
	}
	if other != k {
		for i := 0; i < 300; i++ {
			wg.Add(2)
			x, y := []byte{'x', byte(i)}, []byte{'y', byte(i), 0}
			go func() { defer wg.Done(); s.Set(ctx, k, x) }()
			go func() { defer wg.Done(); s.Set(ctx, other, y) }()
			wg.Wait()
			zzOneOf(s, k, [][]byte{x}, "C24: a concurrent write to another key corrupts a key")
			zzOneOf(s, other, [][]byte{y}, "C24: a concurrent write to another key corrupts a key")
		}
	}
}
