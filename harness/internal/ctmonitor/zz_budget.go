package ctmonitor

import (
	"context"
	"net/http"
	"os"

	"itko.dev/internal/zzref"
	"itko.dev/internal/zzsym"
)

// zzBudget is a store with a limited number of requests.
type zzBudget struct {
	dir  string
	left int
	seen map[string]bool
}

func (s *zzBudget) AvailableReqs() int { return s.left }

func (s *zzBudget) Get(ctx context.Context, key string) ([]byte, bool, error) {
	if !s.seen[key] {
		s.left--
		s.seen[key] = true
	}
	b, err := os.ReadFile(s.dir + "/" + key)
	return b, err != nil && os.IsNotExist(err), err
}

// VerifEntriesBudget: C17 with a limited number of storage requests.
func VerifEntriesBudget() {
	size := int64(zzsym.Choice("size", 3) + 2)
	w := zzNewWorld(size)
	w.expand(0)
	shared := []byte{7, 7}
	for i := int64(0); i < size; i++ {
		e := &zzref.Entry{Index: uint64(i), Timestamp: uint64(i + 5), Cert: zzsym.Bytes("cert", 1), Precert: i == 1, PreCert: []byte{byte(i)}}
		n := zzsym.Choice("chain", 3)
		for j := 0; j < n; j++ {
			if j == 1 {
				e.Chain = append(e.Chain, shared)
			} else {
				e.Chain = append(e.Chain, []byte{9, byte(i)})
			}
		}
		w.entries[i] = e
	}
	w.publish(true, nil)
	s := &zzBudget{dir: w.dir, left: 3 + zzsym.Choice("budget", 6), seen: map[string]bool{}}
	max := []int{1024, 75, 3, 1}[zzsym.Choice("max", 4)]
	f := newFetch(s, w.mask, max)
	w.h = http.HandlerFunc(wrapper(f.get_entries))
	start := int64(zzsym.Choice("start", 2))
	r := w.get("/ct/v1/get-entries", "start", zzDec(start), "end", zzDec(size+3))
	zzsym.Assert(r.code == 200, "C17: a request inside the tree is refused")
	n := w.checkEntries(start, size+3, r.body)
	zzsym.Assert(n <= max, "C17: more entries than the configured maximum")
	if s.left > 0 {
		zzsym.Reach("answered")
		zzsym.Assert(n > 0, "C17: no entry although start is inside the tree")
	} else {
		zzsym.Reach("exhausted")
	}
}
