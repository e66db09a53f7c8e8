package ctsubmit

import (
	"context"
	"sync"
	"time"

	"itko.dev/internal/sunlight"
	"itko.dev/internal/zzsym"
)

// zzSeq drives stage one and collects what it hands on.
type zzSeq struct {
	mu    sync.Mutex
	start uint64
	in    chan UnsequencedEntryWithReturnPath
	sent  []zzSent
	pools [][]LogEntryWithReturnPath
	n     int // entries in pools
	late  []int64
	done  chan error
}

type zzSent struct {
	e    sunlight.UnsequencedEntry
	rp   chan<- sunlight.LogEntry
	when int64
	by   int64 // when it has been taken (if the next stage takes batches at once)
}

const zzFlush = 100

// zzSequencer starts stage one; the next stage takes batches at once, or only when take is called.
func zzSequencer(ctx context.Context, size uint64, buffer int, eager bool) (*zzSeq, func()) {
	s := &zzSeq{start: size, in: make(chan UnsequencedEntryWithReturnPath, 200), done: make(chan error, 1)}
	out := make(chan []LogEntryWithReturnPath, buffer)
	d := stageOneData{stageOneRx: s.in, stageTwoTx: out, startingSequence: size, flushMs: zzFlush}
	go func() { s.done <- d.stageOne(ctx) }()
	take := func() {
		go func() {
			for {
				select {
				case p := <-out:
					now := time.Now().UnixMilli()
					s.mu.Lock()
					s.pools = append(s.pools, p)
					s.n += len(p)
					s.late = append(s.late, now)
					s.mu.Unlock()
				case <-ctx.Done():
					return
				}
			}
		}()
	}
	if eager {
		take()
		take = func() {}
	}
	return s, take
}

// send submits an entry; arb makes it arbitrary.
func (s *zzSeq) send(arb bool) {
	i := len(s.sent)
	e := sunlight.UnsequencedEntry{Certificate: []byte{byte(i), byte(i >> 8)}}
	e.CertificateFp[0], e.CertificateFp[1] = byte(i), byte(i>>8)
	if arb {
		e.Certificate = zzsym.Bytes("cert", 1)
		e.CertificateFp = zzsym.Hash("fp")
		if zzsym.Bool("precert") {
			e.IsPrecert, e.IssuerKeyHash, e.PreCertificate = true, zzsym.Hash("keyhash"), zzsym.Bytes("precertificate", 1)
			e.ChainFp = [][32]byte{zzsym.Hash("issuer")}
		}
	}
	rp := make(chan sunlight.LogEntry, 1)
	s.sent = append(s.sent, zzSent{e, rp, time.Now().UnixMilli(), 0})
	s.in <- UnsequencedEntryWithReturnPath{e, rp}
}

// taken waits until the entries so far have been sequenced.
func (s *zzSeq) taken() {
	if zzsym.Symbolic() {
		zzsym.Settle()
	} else {
		for i := 0; i < 100 && len(s.in) > 0; i++ {
			time.Sleep(time.Millisecond)
		}
	}
	by := time.Now().UnixMilli()
	if !zzsym.Symbolic() {
		by += zzFlush * 2 / 5
	}
	for i := range s.sent {
		if s.sent[i].by == 0 {
			s.sent[i].by = by
		}
	}
}

// check compares the batches so far with what was submitted; all says that everything must have arrived.
func (s *zzSeq) check(all bool) {
	if !zzsym.Symbolic() {
		for i := 0; i < 100; i++ {
			s.mu.Lock()
			ok := !all || s.n >= len(s.sent)
			s.mu.Unlock()
			if ok {
				break
			}
			time.Sleep(20 * time.Millisecond)
		}
	} else {
		zzsym.Settle()
	}
	s.mu.Lock()
	defer s.mu.Unlock()
	k := 0
	last := int64(0)
	for b, p := range s.pools {
		zzsym.Assert(len(p) <= 255, "C06: a batch has more than 255 entries")
		for _, x := range p {
			if k >= len(s.sent) {
				zzsym.Fail("C06: an entry is sequenced that was not submitted, or twice")
				return
			}
			w := s.sent[k]
			zzsym.Assert(x.entry.LeafIndex == s.start+uint64(k), "C06: leaf indices are not consecutive in arrival order from the tree size")
			zzsym.Assert(x.returnPath == w.rp, "C06: an entry does not keep its submitter's return path")
			zzsym.Assert(zzsym.All(x.entry.CertificateFp == w.e.CertificateFp, zzsym.EqBytes(x.entry.Certificate, w.e.Certificate), x.entry.IsPrecert == w.e.IsPrecert,
				x.entry.IssuerKeyHash == w.e.IssuerKeyHash, zzsym.EqBytes(x.entry.PreCertificate, w.e.PreCertificate), len(x.entry.ChainFp) == len(w.e.ChainFp)),
				"C06: a sequenced entry differs from the submitted one")
			for i := range w.e.ChainFp {
				zzsym.Assert(x.entry.ChainFp[i] == w.e.ChainFp[i], "C06: a sequenced entry differs from the submitted one")
			}
			zzsym.Assert(x.entry.Timestamp >= w.when, "C06: an entry's timestamp is before its submission")
			zzsym.Assert(x.entry.Timestamp <= s.late[b], "C06: an entry's timestamp is after its batch was handed on")
			zzsym.Assert(w.by == 0 || x.entry.Timestamp <= w.by, "C06: an entry's timestamp is not the time at which it was sequenced")
			zzsym.Assert(x.entry.Timestamp >= last, "C06: timestamps run backwards")
			last = x.entry.Timestamp
			k++
		}
	}
	if all {
		zzsym.Assert(k == len(s.sent), "C06: an accepted entry is not handed to publication")
	}
}

// VerifSequence: entries arriving in any pattern around the flush interval.
func VerifSequence() {
	zzsym.VirtualClock(0)
	ctx, end := context.WithCancel(context.Background())
	size := zzsym.U64("size")
	zzsym.Assume(size < 1<<40-1000)
	eager := zzsym.Choice("eager", 2) == 0
	s, take := zzSequencer(ctx, size, 2, eager)
	for i := 0; i < zzsym.Param("steps", 4); i++ {
		switch zzsym.Choice("step", 4) {
		case 0:
			s.send(i < 2)
			if eager {
				s.taken()
			}
		case 1:
			s.send(false)
			s.send(false)
		case 2:
			zzsym.Advance(zzFlush / 2)
		case 3:
			zzsym.Advance(zzFlush + 1)
		}
		if i == 2 && !eager {
			s.check(false)
		}
	}
	if !eager && zzsym.Choice("long", 2) == 1 {
		for i := 0; i < zzsym.Param("wait", 25); i++ {
			zzsym.Advance(zzFlush + 1)
		}
	}
	take()
	zzsym.Advance(zzFlush + 1)
	s.check(true)
	// nothing is left over or repeated later
	s.send(false)
	zzsym.Advance(zzFlush + 1)
	zzsym.Advance(zzFlush + 1)
	s.check(true)
	end()
	zzsym.Reach("sequenced")
}

// VerifSequenceBurst: many entries arrive at once.
func VerifSequenceBurst() {
	zzsym.VirtualClock(0)
	ctx, end := context.WithCancel(context.Background())
	eager := zzsym.Choice("eager", 2) == 0
	s, take := zzSequencer(ctx, 1000, 2, eager)
	n := []int{254, 255, 256, 300, 510, 511, 520, 765, 900}[zzsym.Choice("burst", zzsym.Param("bursts", 8))]
	first := zzsym.Choice("first", 3)
	for i := 0; i < first; i++ {
		s.send(false)
	}
	if zzsym.Choice("pause", 2) == 1 {
		zzsym.Advance(zzFlush / 2)
	}
	for i := 0; i < n; i++ {
		s.send(false)
	}
	s.check(false)
	if !eager && n > 512 {
		// the next stage is busy for long
		for i := 0; i < 25; i++ {
			zzsym.Advance(zzFlush + 1)
		}
		s.check(false)
	}
	take()
	zzsym.Advance(zzFlush + 1)
	s.check(true)
	end()
	zzsym.Reach("sequenced")
}
