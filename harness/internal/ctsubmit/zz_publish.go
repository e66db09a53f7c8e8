package ctsubmit

import (
	"slices"
	"time"

	"itko.dev/internal/zzref"
	"itko.dev/internal/zzsym"
)

var zzSizesList = []int64{0, 1, 255, 256, 257, 254, 2, 65535, 65536, 65537, 511, 512, 65791, 65792, 131071, 3}

// trees larger than what fits 24, 32 bits, or about to be
var zzHugeList = []int64{1<<32 - 1, 1<<32 + 65537, 1<<24 - 1, 1<<40 - 600, 1<<33 + 256, 1<<31 - 1}

// zzSize chooses one of the first sizes (parameter) of the list or one of the first huge ones.
func zzSize(list []int64, def int) (int, int64) {
	k := zzsym.Param("sizes", def)
	i := zzsym.Choice("size", k+zzsym.Param("huge", 0))
	if i < k {
		return i, list[i]
	}
	return i, zzHugeList[i-k]
}

// entries makes a batch of n entries; the first few are arbitrary.
func (z *zzLog) entries(from int64, n int, arbitrary int) []*zzref.Entry {
	var es []*zzref.Entry
	now := uint64(time.Now().UnixMilli())
	for i := 0; i < n; i++ {
		e := &zzref.Entry{Index: uint64(from) + uint64(i), Timestamp: 1500000000000 + uint64(i), Cert: []byte{byte(i), byte(from), byte(z.round)}}
		if i < arbitrary {
			e.Timestamp = now - uint64(zzsym.Below("age", 1<<20))
			e.Cert = zzsym.Bytes("cert", 2)
			typ := int(from+int64(i)) % 3
			if zzsym.Param("types", 1) == 3 {
				typ = zzsym.Choice("type", 3)
			}
			switch typ {
			case 1:
				e.Chain = [][]byte{zzsym.Bytes("issuer", 1)}
			case 2:
				e.Precert, e.KeyHash, e.PreCert, e.Chain = true, zzsym.Hash("keyhash"), zzsym.Bytes("precertificate", 1), [][]byte{{7}, {8, byte(i)}}
			}
		} else if i%3 == 0 {
			e.Chain = [][]byte{{7}, {9, byte(i)}}
		} else if i%3 == 1 && i < 9 {
			e.Chain = [][]byte{{7}, {10, byte(i)}} // as long as the one before
		}
		es = append(es, e)
	}
	return es
}

// batch sizes one after the other
var zzScenarios = [][]int{{1, 2}, {2, 1}, {0, 1, 0}, {255, 2}, {1, 255}, {255, 255}, {3, 254}, {2, 0, 3}}

func zzDelayClasses() []string {
	return []string{"", "tile/data", "int/hashes", "tile/0", "issuer", "tile/", "int/dedupe", "ct/v1/get-sth", "checkpoint"}
}

// VerifPublish: fault-free publication of a few batches from any tree shape.
func VerifPublish() {
	zzsym.VirtualClock(4)
	size, n := zzSize(zzSizesList, 8)
	z := zzNewLog(n)
	sc := zzsym.Choice("scenario", zzsym.Param("scenarios", 4))
	delays := zzDelayClasses()
	if k := zzsym.Param("delays", 0); k > 0 {
		z.delay = delays[zzsym.Choice("delay", k)]
	} else {
		z.delay = delays[(size+sc)%len(delays)]
	}
	if err := z.load(); err != nil {
		zzsym.Fail("C04: the log does not start from its published tree")
		return
	}
	z.start()
	next := n
	for b, k := range zzScenarios[sc] {
		arb := zzsym.Param("arbitrary", 1)
		if slices.Max(zzScenarios[sc]) > 3 || b != (size+sc)&1 {
			arb = 0
		}
		es := z.entries(next, k, arb)
		sths := z.sths
		z.pool(es)
		next += int64(k)
		zzsym.Assert(z.sths > sths, "C16: no tree head is published for a batch")
		zzsym.Assert(z.pub == next && z.cp == next, "C02: the batch is not published")
		zzsym.Assert(len(z.returned) == z.submitted, "C06: an entry is not returned")
	}
	zzsym.Reach("published")
}

type zzFaultAt struct {
	op, class string
}

var zzFaults = []zzFaultAt{{"set", "tile/data"}, {"set", "tile/0"}, {"set", "int/hashes"}, {"get", "int/hashes"}, {"set", "issuer"}, {"exists", "issuer"},
	{"set", "ct/v1/get-sth"}, {"set", "checkpoint"}, {"set", "int/dedupe"}, {"get", "int/dedupe"}, {"set", "tile/"}}

// VerifFailStop: one storage operation fails, at once or after taking effect.
func VerifFailStop() {
	zzsym.VirtualClock(4)
	_, n := zzSize([]int64{1, 255, 0, 256, 65535}, 2)
	z := zzNewLog(n)
	f := zzFaults[zzsym.Choice("fault", len(zzFaults))]
	z.fault = zzFault{op: f.op, class: f.class, nth: zzsym.Choice("nth", zzsym.Param("nth", 2))}
	if f.op == "set" {
		z.fault.applied = zzsym.Choice("applied", 2) == 1
	}
	switch zzsym.Choice("delay", zzsym.Param("delays", 2)) {
	case 1:
		z.delay = f.class // everything else is under way first
	case 2:
		z.delay = "tile/data"
	case 3:
		z.delay = "int/hashes"
	}
	if err := z.load(); err != nil {
		zzsym.Fail("C04: the log does not start from its published tree")
		return
	}
	z.start()
	next := n
	for _, k := range [][]int{{2, 3, 1}, {0, 2, 1}, {3, 0, 2}, {255, 2, 1}}[zzsym.Choice("scenario", zzsym.Param("scenarios", 1))] {
		es := z.entries(next, k, 0)
		was := z.failed
		z.pool(es)
		if was {
			// the process has stopped sequencing; zzObs reports anything it stores
			zzsym.Reach("stopped")
			continue
		}
		next += int64(k)
		if z.failed {
			zzsym.Assert(z.cons.isReleased(), "C05: the log does not give up its leadership after a storage failure")
			z.dead = true
			zzsym.Reach("failed")
			for _, e := range es {
				zzsym.Assert(!z.returned[e.Index], "C05: an entry of the failed batch is returned")
			}
		} else {
			zzsym.Assert(z.pub == next && z.cp == next, "C02: the batch is not published")
			zzsym.Assert(len(z.returned) == z.submitted, "C06: an entry is not returned")
		}
	}
	if !z.failed {
		zzsym.Reach("no fault")
	}
}

// VerifRestart: the process stops in the middle of a batch with any part of its uploads done, and starts again.
func VerifRestart() {
	zzsym.VirtualClock(4)
	_, n := zzSize(zzSizesList, 3)
	z := zzNewLog(n)
	lost := map[string]bool{}
	classes := []string{"tile/data", "tile/0", "tile/", "int/hashes", "issuer"}
	switch m := zzsym.Choice("crash", 7); m {
	case 0:
		// during the uploads, some of which are done
		mask := 1 + zzsym.Choice("uploads lost", 31)
		for i, c := range classes {
			lost[c] = mask>>i&1 == 1
		}
	case 1, 2:
		z.fault = zzFault{op: "set", class: classes[m-1], nth: 1, crash: true}
	case 3:
		z.fault = zzFault{op: "set", class: "ct/v1/get-sth", crash: true, applied: zzsym.Choice("applied", 2) == 1}
	case 4:
		z.fault = zzFault{op: "set", class: "checkpoint", crash: true, applied: zzsym.Choice("applied", 2) == 1}
	case 5:
		z.fault = zzFault{op: "set", class: "int/dedupe", crash: true, applied: zzsym.Choice("applied", 2) == 1}
	}
	if len(lost) > 0 {
		z.fault.lose = func(op, class string) bool { return op == "set" && lost[class] }
	}
	scs := [][2]int{{2, 2}, {255, 1}, {1, 3}, {2, 1}, {255, 254}, {3, 255}}
	sc := scs[(zzsym.Choice("scenario", zzsym.Param("scenarios", 2)))]
	if err := z.load(); err != nil {
		zzsym.Fail("C04: the log does not start from its published tree")
		return
	}
	z.start()
	z.pool(z.entries(n, sc[0], 0))
	z.end()
	for round := 0; round < zzsym.Param("restarts", 1); round++ {
		z.t.Truncate(z.pub)
		z.checked = z.pub
		z.fault = zzFault{}
		old := z.pub
		z.round++
		z.restarted = true
		if err := z.load(); err != nil {
			zzsym.Fail("C04: the log does not restart after a crash")
			return
		}
		zzsym.Assert(z.l.stageTwoData.treeSize == uint64(old) && z.l.startingSequence == uint64(old), "C04: the log does not resume at its published size")
		zzsym.Reach("restarted")
		z.start()
		z.pool(z.entries(old, sc[1], 0))
		zzsym.Assert(z.pub == old+int64(sc[1]) && z.cp == z.pub, "C04: the log does not continue after a crash")
		if round+1 < zzsym.Param("restarts", 1) {
			z.end()
		}
	}
	zzsym.Reach("continued")
}
