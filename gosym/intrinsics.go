package main

import (
	"bytes"
	"crypto/sha256"
	"fmt"
	"go/types"
	"math/big"
	mbits "math/bits"
	"path"
	"path/filepath"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// notHandled tells the interpreter to execute the real body.
type notHandled struct{}

const timeMagic = 1<<63 | 0x5A5A

func ptr(v Value) *Value {
	p, ok := v.(*Value)
	if !ok {
		panic(abortf("pointer expected, got %T", v))
	}
	return p
}

// mkErr makes an error value with the given text.
func (g *G) mkErr(msg string) Value {
	t := g.p.w.eng.namedType("errors", "errorString")
	if t == nil {
		panic(abortf("errors.errorString not loaded"))
	}
	var v Value = StructV{msg}
	return Iface{types.NewPointer(t), &v}
}

func (g *G) nilErr() Value { return Iface{} }

func (g *G) str(v Value) string {
	switch s := v.(type) {
	case string:
		return s
	case *SymStr:
		if s.lazy == nil && allConst(s.b) {
			return string(concBytes(s.b))
		}
	}
	panic(abortf("symbolic string where a concrete one is needed"))
}

func (g *G) cint(v Value) int64 {
	t := v.(*Term)
	if !t.isConst() {
		panic(abortf("symbolic integer where a concrete one is needed"))
	}
	return signed(t)
}

func concStr(v Value) (string, bool) {
	switch s := v.(type) {
	case string:
		return s, true
	case *SymStr:
		if s.lazy == nil && allConst(s.b) {
			return string(concBytes(s.b)), true
		}
	}
	return "", false
}

// sha256T hashes a message.
func (g *G) sha256T(msg []*Term) *Term {
	tc := g.p.w.tc
	if allConst(msg) {
		d := sha256.Sum256(concBytes(msg))
		r := tc.BigConst(256, new(big.Int).SetBytes(d[:]))
		if len(msg) > 0 {
			tc.hashOf[r] = tc.UF(256, fmt.Sprintf("H!sha256@%d", len(msg)), tc.Concat(msg...))
		} else {
			tc.hashOf[r] = tc.UF(256, "H!sha256@0", tc.Const(8, 0))
		}
		tc.preOf[tc.BigConst(128, new(big.Int).SetBytes(d[:16]))] = tc.hashOf[r]
		return r
	}
	return tc.UF(256, fmt.Sprintf("H!sha256@%d", len(msg)), tc.Concat(msg...))
}

func (w *Worker) splitBytes(t *Term) []*Term {
	n := int(t.w / 8)
	out := make([]*Term, n)
	for i := range out {
		hi := t.w - 1 - int32(i)*8
		out[i] = w.tc.Extract(t, hi, hi-7)
	}
	return out
}

func toArray(ts []*Term) ArrayV {
	a := make(ArrayV, len(ts))
	for i, t := range ts {
		a[i] = t
	}
	return a
}

// ---- time

func (g *G) timeVal(ms *Term) Value {
	tc := g.p.w.tc
	return StructV{tc.Const(64, timeMagic), ms, (*Value)(nil)}
}

// timeMs returns the milliseconds since the epoch of a time produced by the model clock, or of a concrete time.
func (g *G) timeMs(v Value) (*Term, bool) {
	s, ok := v.(StructV)
	if !ok {
		return nil, false
	}
	if w, ok := s[0].(*Term); ok && w.isConst() && w.v == timeMagic {
		return s[1].(*Term), true
	}
	return nil, false
}

// realMs converts an ordinary concrete time.Time.
func (g *G) realMs(v Value) *Term {
	s := v.(StructV)
	w, e := s[0].(*Term), s[1].(*Term)
	if !w.isConst() || w.v>>63 != 0 {
		panic(abortf("unsupported time value"))
	}
	const unixToInternal = 62135596800
	if !e.isConst() {
		tc := g.p.w.tc
		ms := tc.Mul(tc.Sub(e, tc.Const(64, unixToInternal)), tc.Const(64, 1000))
		return tc.Add(ms, tc.Const(64, uint64(w.v&(1<<30-1))/1000000))
	}
	ms := (int64(e.v)-unixToInternal)*1000 + int64(w.v&(1<<30-1))/1000000
	return g.p.w.tc.Const(64, uint64(ms))
}

func (g *G) timeBoth(a, b Value) (*Term, *Term, bool) {
	x, ok1 := g.timeMs(a)
	y, ok2 := g.timeMs(b)
	if !ok1 && !ok2 {
		return nil, nil, false
	}
	if !ok1 {
		x = g.realMs(a)
	}
	if !ok2 {
		y = g.realMs(b)
	}
	return x, y, true
}

const (
	clockLo = 1_600_000_000_000
	clockHi = 4_000_000_000_000
)

func (g *G) now() *Term {
	p := g.p
	tc := p.w.tc
	if p.virtual {
		if p.clock == nil {
			p.clock = p.newVar(64, "clock")
			p.assume(tc.BAnd(tc.Ule(tc.Const(64, clockLo), p.clock), tc.Ult(p.clock, tc.Const(64, clockHi))))
		}
		return tc.Add(p.clock, tc.Const(64, uint64(p.vnow)))
	}
	n := p.newVar(64, "now")
	lo := tc.Const(64, clockLo)
	if p.clock != nil {
		lo = p.clock
	}
	p.assume(tc.BAnd(tc.Ule(lo, n), tc.Ult(n, tc.Const(64, clockHi))))
	p.clock = n
	return n
}

func (g *G) durMs(v Value) int64 {
	d := int64(g.p.concretize(v.(*Term)))
	ms := d / 1000000
	if d > 0 && ms*1000000 < d {
		ms++
	}
	return ms
}

func (g *G) newTimer(d Value, onFire func()) *ChanV {
	p := g.p
	c := p.newChan(1)
	c.timer = true
	c.deadline = p.vnow + g.durMs(d)
	c.onFire = onFire
	p.timers = append(p.timers, c)
	return c
}

// fireDue fires all timers whose deadline has passed.
func (p *Path) fireDue() {
	for {
		var best *ChanV
		for _, c := range p.timers {
			if !c.fired && !c.stopped && c.deadline <= p.vnow && (best == nil || c.deadline < best.deadline) {
				best = c
			}
		}
		if best == nil {
			break
		}
		p.fire(best)
	}
	k := p.timers[:0]
	for _, c := range p.timers {
		if !c.fired && !c.stopped {
			k = append(k, c)
		}
	}
	p.timers = k
}

// ---- errors

func (g *G) errorMethod(e Iface, name string) *ssa.Function {
	if e.t == nil {
		return nil
	}
	return g.p.w.method(e.t, nil, name)
}

func (g *G) unwrap(e Iface) []Iface {
	f := g.errorMethod(e, "Unwrap")
	if f == nil {
		return nil
	}
	r := f.Signature.Results()
	if r.Len() != 1 {
		return nil
	}
	v := g.call(f, []Value{copyVal(e.v)}, nil)
	switch x := v.(type) {
	case Iface:
		if x.t != nil {
			return []Iface{x}
		}
	case SliceV:
		var out []Iface
		for _, y := range x {
			if i := y.(Iface); i.t != nil {
				out = append(out, i)
			}
		}
		return out
	}
	return nil
}

func (g *G) errorsIs(e, target Iface) bool {
	if e.t == nil || target.t == nil {
		return e.t == nil && target.t == nil
	}
	if types.Identical(e.t, target.t) && types.Comparable(target.t) {
		if g.p.branch(g.equals(e.t, e.v, target.v), nil) {
			return true
		}
	}
	if f := g.errorMethod(e, "Is"); f != nil && f.Signature.Params().Len() == 1 {
		if g.p.branch(g.call(f, []Value{copyVal(e.v), target}, nil).(*Term), nil) {
			return true
		}
	}
	for _, u := range g.unwrap(e) {
		if g.errorsIs(u, target) {
			return true
		}
	}
	return false
}

func (g *G) errorsAs(e Iface, target Iface) bool {
	if e.t == nil {
		return false
	}
	pt, ok := target.t.(*types.Pointer)
	if !ok {
		g.rtPanic("errors: target must be a non-nil pointer")
	}
	et := pt.Elem()
	if it, ok := et.Underlying().(*types.Interface); ok {
		if g.p.w.implements(e.t, it) {
			g.store(target.v, e)
			return true
		}
	} else if types.Identical(e.t, et) {
		g.store(target.v, copyVal(e.v))
		return true
	}
	if f := g.errorMethod(e, "As"); f != nil && f.Signature.Params().Len() == 1 {
		if g.p.branch(g.call(f, []Value{copyVal(e.v), target}, nil).(*Term), nil) {
			return true
		}
	}
	for _, u := range g.unwrap(e) {
		if g.errorsAs(u, target) {
			return true
		}
	}
	return false
}

// ---- byte searches

func (g *G) indexByte(b []*Term, c *Term) *Term {
	tc := g.p.w.tc
	for i, x := range b {
		if g.p.branch(tc.Eq(x, c), nil) {
			return tc.Const(64, uint64(i))
		}
	}
	return tc.Const(64, ^uint64(0))
}

func (g *G) indexBytes(b, sep []*Term) *Term {
	tc := g.p.w.tc
	for i := 0; i+len(sep) <= len(b); i++ {
		if g.p.branch(g.bytesEq(b[i:i+len(sep)], sep), nil) {
			return tc.Const(64, uint64(i))
		}
	}
	return tc.Const(64, ^uint64(0))
}

func (g *G) bytesOf(v Value) []*Term {
	switch x := v.(type) {
	case SliceV:
		return bytesToTerms(x)
	default:
		return g.strBytes(x)
	}
}

func lazyStr(t *Term, sgn bool) Value { return &SymStr{lazy: &LazyDec{t, sgn}} }

func intrinsics() map[string]Intrinsic {
	m := map[string]Intrinsic{}
	reg := func(f Intrinsic, names ...string) {
		for _, n := range names {
			m[n] = f
		}
	}
	nop := func(g *G, fn *ssa.Function, a []Value) Value { return g.p.w.zeroResult(fn) }

	// --- sync
	lock := func(g *G, fn *ssa.Function, a []Value) Value {
		g.yield()
		s := g.p.mutex(ptr(a[0]))
		g.block(func() bool { return !s.locked && s.readers == 0 }, "mutex")
		s.locked = true
		return nil
	}
	unlock := func(g *G, fn *ssa.Function, a []Value) Value {
		s := g.p.mutex(ptr(a[0]))
		if !s.locked {
			panic(targetPanic{Iface{types.Typ[types.String], "sync: unlock of unlocked mutex"}})
		}
		s.locked = false
		return nil
	}
	reg(lock, "(*sync.Mutex).Lock", "(*sync.RWMutex).Lock", "(*internal/sync.Mutex).Lock")
	reg(unlock, "(*sync.Mutex).Unlock", "(*sync.RWMutex).Unlock", "(*internal/sync.Mutex).Unlock")
	reg(func(g *G, fn *ssa.Function, a []Value) Value {
		s := g.p.mutex(ptr(a[0]))
		if s.locked || s.readers > 0 {
			return g.p.w.tc.F
		}
		s.locked = true
		return g.p.w.tc.T
	}, "(*sync.Mutex).TryLock", "(*sync.RWMutex).TryLock")
	reg(func(g *G, fn *ssa.Function, a []Value) Value {
		g.yield()
		s := g.p.mutex(ptr(a[0]))
		g.block(func() bool { return !s.locked }, "rwmutex")
		s.readers++
		return nil
	}, "(*sync.RWMutex).RLock")
	reg(func(g *G, fn *ssa.Function, a []Value) Value {
		s := g.p.mutex(ptr(a[0]))
		if s.readers == 0 {
			panic(targetPanic{Iface{types.Typ[types.String], "sync: RUnlock of unlocked RWMutex"}})
		}
		s.readers--
		return nil
	}, "(*sync.RWMutex).RUnlock")
	wgAdd := func(g *G, a *Value, d int) {
		s := g.p.wgroup(a)
		s.n += d
		if s.n < 0 {
			panic(targetPanic{Iface{types.Typ[types.String], "sync: negative WaitGroup counter"}})
		}
	}
	reg(func(g *G, fn *ssa.Function, a []Value) Value {
		wgAdd(g, ptr(a[0]), int(g.cint(a[1])))
		return nil
	}, "(*sync.WaitGroup).Add")
	reg(func(g *G, fn *ssa.Function, a []Value) Value {
		wgAdd(g, ptr(a[0]), -1)
		return nil
	}, "(*sync.WaitGroup).Done")
	reg(func(g *G, fn *ssa.Function, a []Value) Value {
		g.yield()
		s := g.p.wgroup(ptr(a[0]))
		g.block(func() bool { return s.n == 0 }, "waitgroup")
		return nil
	}, "(*sync.WaitGroup).Wait")
	reg(func(g *G, fn *ssa.Function, a []Value) Value {
		st := (*ptr(a[0])).(StructV)
		nf, _ := st[len(st)-1].(*Closure)
		if nf == nil {
			return Iface{}
		}
		return g.callV(nf, nil)
	}, "(*sync.Pool).Get")
	reg(nop, "(*sync.Pool).Put")
	reg(nop, "runtime.SetFinalizer", "runtime.KeepAlive", "runtime.GC", "runtime.Gosched", "internal/race.Acquire", "internal/race.Release", "internal/race.ReleaseMerge", "internal/race.Disable", "internal/race.Enable", "internal/race.Read", "internal/race.Write", "internal/race.ReadRange", "internal/race.WriteRange", "internal/godebug.registerMetric", "internal/godebug.setUpdate", "internal/godebug.setNewIncNonDefault", "internal/godebug.registerMetric", "(*internal/godebug.Setting).IncNonDefault", "internal/cpu.Initialize")
	reg(func(g *G, fn *ssa.Function, a []Value) Value { return "" }, "(*internal/godebug.Setting).Value", "(*internal/godebug.Setting).String")
	reg(func(g *G, fn *ssa.Function, a []Value) Value { g.yield(); return nil }, "runtime.Gosched")
	reg(func(g *G, fn *ssa.Function, a []Value) Value {
		tc := g.p.w.tc
		return TupleV{tc.Const(64, 0), "?", tc.Const(64, 0), tc.F}
	}, "runtime.Caller")
	reg(func(g *G, fn *ssa.Function, a []Value) Value { return g.p.w.tc.Const(64, 0) }, "runtime.Callers")
	reg(func(g *G, fn *ssa.Function, a []Value) Value { return g.p.w.tc.Const(64, 8) }, "runtime.GOMAXPROCS", "runtime.NumCPU")

	// --- atomics
	for _, ty := range []string{"Int32", "Int64", "Uint32", "Uint64", "Uintptr", "Pointer"} {
		reg(func(g *G, fn *ssa.Function, a []Value) Value { g.yield(); return g.load(a[0]) }, "sync/atomic.Load"+ty)
		reg(func(g *G, fn *ssa.Function, a []Value) Value { g.yield(); g.store(a[0], a[1]); return nil }, "sync/atomic.Store"+ty)
		reg(func(g *G, fn *ssa.Function, a []Value) Value {
			g.yield()
			o := g.load(a[0])
			g.store(a[0], a[1])
			return o
		}, "sync/atomic.Swap"+ty)
		reg(func(g *G, fn *ssa.Function, a []Value) Value {
			g.yield()
			tc := g.p.w.tc
			o := g.load(a[0])
			var eq *Term
			if x, ok := o.(*Term); ok {
				eq = tc.Eq(x, a[1].(*Term))
			} else {
				eq = tc.Bool(o == a[1])
			}
			if g.p.branch(eq, nil) {
				g.store(a[0], a[2])
				return tc.T
			}
			return tc.F
		}, "sync/atomic.CompareAndSwap"+ty)
		if ty != "Pointer" {
			reg(func(g *G, fn *ssa.Function, a []Value) Value {
				g.yield()
				n := g.p.w.tc.Add(g.load(a[0]).(*Term), a[1].(*Term))
				g.store(a[0], n)
				return n
			}, "sync/atomic.Add"+ty)
		}
	}
	reg(func(g *G, fn *ssa.Function, a []Value) Value { g.yield(); return (*ptr(a[0])).(StructV)[0] }, "(*sync/atomic.Value).Load")
	reg(func(g *G, fn *ssa.Function, a []Value) Value { g.yield(); (*ptr(a[0])).(StructV)[0] = a[1]; return nil }, "(*sync/atomic.Value).Store")

	// --- internal/bytealg, strings, bytes
	reg(func(g *G, fn *ssa.Function, a []Value) Value { return g.indexByte(g.bytesOf(a[0]), a[1].(*Term)) },
		"internal/bytealg.IndexByte", "internal/bytealg.IndexByteString", "strings.IndexByte", "bytes.IndexByte")
	reg(func(g *G, fn *ssa.Function, a []Value) Value {
		b := g.bytesOf(a[0])
		tc := g.p.w.tc
		for i := len(b) - 1; i >= 0; i-- {
			if g.p.branch(tc.Eq(b[i], a[1].(*Term)), nil) {
				return tc.Const(64, uint64(i))
			}
		}
		return tc.Const(64, ^uint64(0))
	}, "internal/bytealg.LastIndexByte", "internal/bytealg.LastIndexByteString")
	reg(func(g *G, fn *ssa.Function, a []Value) Value { return g.indexBytes(g.bytesOf(a[0]), g.bytesOf(a[1])) },
		"strings.Index", "bytes.Index", "internal/bytealg.Index", "internal/bytealg.IndexString")
	reg(func(g *G, fn *ssa.Function, a []Value) Value {
		b, sep := g.bytesOf(a[0]), g.bytesOf(a[1])
		tc := g.p.w.tc
		for i := len(b) - len(sep); i >= 0; i-- {
			if g.p.branch(g.bytesEq(b[i:i+len(sep)], sep), nil) {
				return tc.Const(64, uint64(i))
			}
		}
		return tc.Const(64, ^uint64(0))
	}, "strings.LastIndex", "bytes.LastIndex")
	reg(func(g *G, fn *ssa.Function, a []Value) Value {
		x, y := g.bytesOf(a[0]), g.bytesOf(a[1])
		tc := g.p.w.tc
		return tc.Ite(g.bytesEq(x, y), tc.Const(64, 0), tc.Ite(g.bytesLess(x, y), tc.Const(64, ^uint64(0)), tc.Const(64, 1)))
	}, "bytes.Compare", "internal/bytealg.Compare", "strings.Compare", "internal/bytealg.CompareString")
	reg(func(g *G, fn *ssa.Function, a []Value) Value { return g.bytesEq(g.bytesOf(a[0]), g.bytesOf(a[1])) }, "bytes.Equal", "internal/bytealg.Equal")
	reg(func(g *G, fn *ssa.Function, a []Value) Value {
		tc := g.p.w.tc
		return tc.Ite(g.bytesEq(g.bytesOf(a[0]), g.bytesOf(a[1])), tc.Const(64, 1), tc.Const(64, 0))
	}, "crypto/subtle.ConstantTimeCompare", "crypto/internal/fips140/subtle.ConstantTimeCompare")
	reg(func(g *G, fn *ssa.Function, a []Value) Value {
		tc := g.p.w.tc
		n := 0
		for _, x := range g.bytesOf(a[0]) {
			if g.p.branch(tc.Eq(x, a[1].(*Term)), nil) {
				n++
			}
		}
		return tc.Const(64, uint64(n))
	}, "internal/bytealg.Count", "internal/bytealg.CountString")
	reg(func(g *G, fn *ssa.Function, a []Value) Value {
		n := g.cint(a[0])
		s := make(SliceV, n)
		for i := range s {
			s[i] = g.p.w.tc.small[8][0]
		}
		return s
	}, "internal/bytealg.MakeNoZero")
	reg(func(g *G, fn *ssa.Function, a []Value) Value {
		st := (*ptr(a[0])).(StructV)
		return g.p.w.mkStr(bytesToTerms(st[1].(SliceV)))
	}, "(*strings.Builder).String")
	reg(nop, "(*strings.Builder).copyCheck")
	reg(func(g *G, fn *ssa.Function, a []Value) Value { return a[0] }, "strings.Clone", "internal/stringslite.Clone")

	// --- math/bits
	bitLen := func(g *G, t *Term) *Term {
		tc := g.p.w.tc
		if t.isConst() {
			return tc.Const(64, uint64(mbits.Len64(t.v)))
		}
		r := tc.Const(64, 0)
		for i := int32(0); i < t.w; i++ {
			r = tc.Ite(tc.Eq(tc.Extract(t, i, i), tc.Const(1, 1)), tc.Const(64, uint64(i+1)), r)
		}
		return r
	}
	for _, s := range []struct {
		n string
		w int32
	}{{"", 64}, {"8", 8}, {"16", 16}, {"32", 32}, {"64", 64}} {
		w := s.w
		reg(func(g *G, fn *ssa.Function, a []Value) Value { return bitLen(g, a[0].(*Term)) }, "math/bits.Len"+s.n)
		reg(func(g *G, fn *ssa.Function, a []Value) Value {
			return g.p.w.tc.Sub(g.p.w.tc.Const(64, uint64(w)), bitLen(g, a[0].(*Term)))
		}, "math/bits.LeadingZeros"+s.n)
		reg(func(g *G, fn *ssa.Function, a []Value) Value {
			tc := g.p.w.tc
			t := a[0].(*Term)
			r := tc.Const(64, uint64(w))
			for i := w - 1; i >= 0; i-- {
				r = tc.Ite(tc.Eq(tc.Extract(t, i, i), tc.Const(1, 1)), tc.Const(64, uint64(i)), r)
			}
			return r
		}, "math/bits.TrailingZeros"+s.n)
		reg(func(g *G, fn *ssa.Function, a []Value) Value {
			tc := g.p.w.tc
			t := a[0].(*Term)
			r := tc.Const(64, 0)
			for i := int32(0); i < w; i++ {
				r = tc.Add(r, tc.ZExt(tc.Extract(t, i, i), 64))
			}
			return r
		}, "math/bits.OnesCount"+s.n)
	}

	// --- strconv
	reg(func(g *G, fn *ssa.Function, a []Value) Value {
		t := a[0].(*Term)
		if t.isConst() {
			return strconv.FormatInt(int64(t.v), 10)
		}
		return lazyStr(t, true)
	}, "strconv.Itoa")
	reg(func(g *G, fn *ssa.Function, a []Value) Value {
		t := a[0].(*Term)
		if t.isConst() {
			return strconv.FormatInt(int64(t.v), int(g.cint(a[1])))
		}
		if g.cint(a[1]) != 10 {
			return notHandled{}
		}
		return lazyStr(t, true)
	}, "strconv.FormatInt")
	reg(func(g *G, fn *ssa.Function, a []Value) Value {
		t := a[0].(*Term)
		if t.isConst() {
			return strconv.FormatUint(t.v, int(g.cint(a[1])))
		}
		if g.cint(a[1]) != 10 {
			return notHandled{}
		}
		return lazyStr(t, false)
	}, "strconv.FormatUint")
	for f, names := range map[string]func(string) string{"path/filepath.Clean": filepath.Clean, "path/filepath.Dir": filepath.Dir, "path/filepath.Base": filepath.Base, "path.Clean": path.Clean} {
		names := names
		reg(func(g *G, fn *ssa.Function, a []Value) Value {
			if s, ok := concStr(a[0]); ok {
				return names(s)
			}
			return notHandled{}
		}, f)
	}
	appendInt := func(sgn bool) Intrinsic {
		return func(g *G, fn *ssa.Function, a []Value) Value {
			t := a[1].(*Term)
			if g.cint(a[2]) != 10 {
				return notHandled{}
			}
			s := g.strBytes(&SymStr{lazy: &LazyDec{t, sgn}})
			d := a[0].(SliceV)
			return append(append(make(SliceV, 0, len(d)+len(s)), d...), termsToSlice(s)...)
		}
	}
	reg(appendInt(true), "strconv.AppendInt")
	reg(appendInt(false), "strconv.AppendUint")
	parse := func(sgn bool) Intrinsic {
		return func(g *G, fn *ssa.Function, a []Value) Value {
			s, ok := a[0].(*SymStr)
			if !ok {
				return notHandled{}
			}
			base, bits := int64(10), int64(64)
			if len(a) == 3 {
				base, bits = g.cint(a[1]), g.cint(a[2])
			}
			if s.lazy == nil {
				if base != 10 || (bits != 64 && bits != 0) {
					return notHandled{}
				}
				if v := g.decimal(s.b, sgn); v != nil {
					return TupleV{v, Iface{}}
				}
				return notHandled{}
			}
			if (base != 10 && base != 0) || (bits != 64 && bits != 0) {
				return notHandled{}
			}
			tc := g.p.w.tc
			if s.lazy.signed != sgn {
				// values whose sign bit is clear read the same either way
				if !g.p.branch(tc.Sle(tc.Const(64, 0), s.lazy.t), nil) {
					return notHandled{}
				}
			}
			return TupleV{s.lazy.t, Iface{}}
		}
	}
	reg(parse(true), "strconv.ParseInt", "strconv.Atoi")
	reg(parse(false), "strconv.ParseUint")
	reg(func(g *G, fn *ssa.Function, a []Value) Value {
		st := (*ptr(a[0])).(StructV)
		if _, ok := concStr(st[1]); ok {
			return notHandled{}
		}
		return "strconv: parsing ?: error"
	}, "(*strconv.NumError).Error")
	reg(func(g *G, fn *ssa.Function, a []Value) Value {
		if s, ok := concStr(a[0]); ok {
			return strconv.Quote(s)
		}
		return notHandled{}
	}, "strconv.Quote")

	// --- hashing
	reg(func(g *G, fn *ssa.Function, a []Value) Value {
		return toArray(g.p.w.splitBytes(g.sha256T(bytesToTerms(a[0].(SliceV)))))
	}, "crypto/sha256.Sum256")

	// --- errors, fmt, log
	reg(func(g *G, fn *ssa.Function, a []Value) Value {
		return g.p.w.tc.Bool(g.errorsIs(a[0].(Iface), a[1].(Iface)))
	}, "errors.Is")
	reg(func(g *G, fn *ssa.Function, a []Value) Value {
		return g.p.w.tc.Bool(g.errorsAs(a[0].(Iface), a[1].(Iface)))
	}, "errors.As")
	regFmt(reg)
	reg(nop, "time.initLocal", "log.Println", "log.Printf", "log.Print", "fmt.Println", "fmt.Printf", "fmt.Print", "(*log.Logger).Println", "(*log.Logger).Printf", "(*log.Logger).Print", "log.SetFlags", "log.SetPrefix", "os/signal.Notify", "os/signal.Stop")
	reg(func(g *G, fn *ssa.Function, a []Value) Value { return g.p.w.zero(fn.Signature.Results().At(0).Type()) }, "syscall.runtime_envs")
	exit := func(g *G, fn *ssa.Function, a []Value) Value { panic(pathAbort{abExit, "exit"}) }
	reg(exit, "os.Exit", "log.Fatal", "log.Fatalf", "log.Fatalln", "syscall.Exit", "runtime.Goexit")
	pan := func(g *G, fn *ssa.Function, a []Value) Value {
		panic(targetPanic{Iface{types.Typ[types.String], "log.Panic"}})
	}
	reg(pan, "log.Panic", "log.Panicf", "log.Panicln")

	// --- time
	reg(func(g *G, fn *ssa.Function, a []Value) Value { return g.timeVal(g.now()) }, "time.Now")
	reg(func(g *G, fn *ssa.Function, a []Value) Value {
		if ms, ok := g.timeMs(a[0]); ok {
			return ms
		}
		return notHandled{}
	}, "(time.Time).UnixMilli")
	reg(func(g *G, fn *ssa.Function, a []Value) Value {
		tc := g.p.w.tc
		if ms, ok := g.timeMs(a[0]); ok {
			return tc.UDiv(ms, tc.Const(64, 1000))
		}
		return notHandled{}
	}, "(time.Time).Unix")
	reg(func(g *G, fn *ssa.Function, a []Value) Value {
		tc := g.p.w.tc
		if ms, ok := g.timeMs(a[0]); ok {
			return tc.Mul(ms, tc.Const(64, 1000000))
		}
		return notHandled{}
	}, "(time.Time).UnixNano")
	reg(func(g *G, fn *ssa.Function, a []Value) Value {
		tc := g.p.w.tc
		if ms, ok := g.timeMs(a[0]); ok {
			return tc.Mul(ms, tc.Const(64, 1000))
		}
		return notHandled{}
	}, "(time.Time).UnixMicro")
	reg(func(g *G, fn *ssa.Function, a []Value) Value {
		tc := g.p.w.tc
		if x, y, ok := g.timeBoth(a[0], a[1]); ok {
			return tc.Mul(tc.Sub(x, y), tc.Const(64, 1000000))
		}
		return notHandled{}
	}, "(time.Time).Sub")
	reg(func(g *G, fn *ssa.Function, a []Value) Value {
		tc := g.p.w.tc
		y, ok := g.timeMs(a[0])
		if !ok {
			y = g.realMs(a[0])
		}
		return tc.Mul(tc.Sub(g.now(), y), tc.Const(64, 1000000))
	}, "time.Since")
	reg(func(g *G, fn *ssa.Function, a []Value) Value {
		tc := g.p.w.tc
		y, ok := g.timeMs(a[0])
		if !ok {
			y = g.realMs(a[0])
		}
		return tc.Mul(tc.Sub(y, g.now()), tc.Const(64, 1000000))
	}, "time.Until")
	cmp := func(f func(tc *TC, x, y *Term) Value) Intrinsic {
		return func(g *G, fn *ssa.Function, a []Value) Value {
			if x, y, ok := g.timeBoth(a[0], a[1]); ok {
				return f(g.p.w.tc, x, y)
			}
			return notHandled{}
		}
	}
	reg(cmp(func(tc *TC, x, y *Term) Value { return tc.Slt(x, y) }), "(time.Time).Before")
	reg(cmp(func(tc *TC, x, y *Term) Value { return tc.Slt(y, x) }), "(time.Time).After")
	reg(cmp(func(tc *TC, x, y *Term) Value { return tc.Eq(x, y) }), "(time.Time).Equal")
	reg(func(g *G, fn *ssa.Function, a []Value) Value {
		if ms, ok := g.timeMs(a[0]); ok {
			tc := g.p.w.tc
			d := a[1].(*Term)
			return g.timeVal(tc.Add(ms, tc.SDiv(d, tc.Const(64, 1000000))))
		}
		return notHandled{}
	}, "(time.Time).Add")
	same := func(g *G, fn *ssa.Function, a []Value) Value {
		if _, ok := g.timeMs(a[0]); ok {
			return a[0]
		}
		return notHandled{}
	}
	reg(same, "(time.Time).UTC", "(time.Time).Local", "(time.Time).Truncate", "(time.Time).Round")
	reg(func(g *G, fn *ssa.Function, a []Value) Value {
		if _, ok := g.timeMs(a[0]); ok {
			return g.p.w.tc.F
		}
		return notHandled{}
	}, "(time.Time).IsZero")
	reg(func(g *G, fn *ssa.Function, a []Value) Value {
		if _, ok := g.timeMs(a[0]); ok {
			return "<time>"
		}
		return notHandled{}
	}, "(time.Time).String", "(time.Time).Format")
	reg(func(g *G, fn *ssa.Function, a []Value) Value {
		c := g.newTimer(a[0], nil)
		c.tval = g.timeVal(g.p.w.tc.Const(64, 0))
		return c
	}, "time.After", "time.Tick")
	mkTimer := func(g *G, fn *ssa.Function, c *ChanV) Value {
		st := g.p.w.zero(fn.Signature.Results().At(0).Type().(*types.Pointer).Elem()).(StructV)
		st[0] = c
		var v Value = st
		g.p.side[fmt.Sprintf("timer%p", &v)] = c
		return &v
	}
	reg(func(g *G, fn *ssa.Function, a []Value) Value {
		c := g.newTimer(a[0], nil)
		c.tval = g.timeVal(g.p.w.tc.Const(64, 0))
		return mkTimer(g, fn, c)
	}, "time.NewTimer")
	reg(func(g *G, fn *ssa.Function, a []Value) Value {
		c := g.newTimer(a[0], nil)
		c.tval = g.timeVal(g.p.w.tc.Const(64, 0))
		c.period = g.durMs(a[0])
		return mkTimer(g, fn, c)
	}, "time.NewTicker")
	reg(func(g *G, fn *ssa.Function, a []Value) Value {
		f := a[1].(*Closure)
		c := g.newTimer(a[0], nil)
		c.onFire = func() { g.p.spawn(func(g *G) { g.callV(f, nil) }, "AfterFunc") }
		c.tval = Iface{}
		c.async = true
		return mkTimer(g, fn, c)
	}, "time.AfterFunc")
	timerOf := func(g *G, a Value) *ChanV {
		c, _ := g.p.side[fmt.Sprintf("timer%p", ptr(a))].(*ChanV)
		if c == nil {
			panic(abortf("unknown timer"))
		}
		return c
	}
	reg(func(g *G, fn *ssa.Function, a []Value) Value {
		c := timerOf(g, a[0])
		was := !c.fired && !c.stopped
		c.stopped = true
		c.buf = nil
		if fn.Signature.Results().Len() == 0 {
			return nil
		}
		return g.p.w.tc.Bool(was)
	}, "(*time.Timer).Stop", "(*time.Ticker).Stop")
	reg(func(g *G, fn *ssa.Function, a []Value) Value {
		c := timerOf(g, a[0])
		was := !c.fired && !c.stopped
		c.stopped, c.fired = false, false
		c.buf = nil
		c.deadline = g.p.vnow + g.durMs(a[1])
		if c.period > 0 {
			c.period = g.durMs(a[1])
		}
		found := false
		for _, t := range g.p.timers {
			found = found || t == c
		}
		if !found {
			g.p.timers = append(g.p.timers, c)
		}
		if fn.Signature.Results().Len() == 0 {
			return nil
		}
		return g.p.w.tc.Bool(was)
	}, "(*time.Timer).Reset", "(*time.Ticker).Reset")
	reg(func(g *G, fn *ssa.Function, a []Value) Value {
		c := g.newTimer(a[0], nil)
		c.tval = g.timeVal(g.p.w.tc.Const(64, 0))
		if g.p.virtual {
			g.recv(c)
		} else {
			g.yield()
		}
		return nil
	}, "time.Sleep")

	// --- math/rand
	rnd := func(g *G, fn *ssa.Function, a []Value) Value {
		tc := g.p.w.tc
		n := a[len(a)-1].(*Term)
		v := g.p.newVar(n.w, "rand")
		g.p.assume(tc.Ult(v, n))
		return v
	}
	reg(rnd, "math/rand.Intn", "math/rand.Int63n", "math/rand.Int31n", "math/rand/v2.IntN", "math/rand/v2.Int64N", "(*math/rand.Rand).Intn")

	// --- maps
	reg(func(g *G, fn *ssa.Function, a []Value) Value {
		i := a[0].(Iface)
		mv, _ := i.v.(*MapV)
		if mv == nil {
			return i
		}
		n := newMap()
		for k := range mv.keys {
			if mv.dead[k] {
				continue
			}
			id := len(n.keys)
			n.keys = append(n.keys, mv.keys[k])
			n.vals = append(n.vals, copyVal(mv.vals[k]))
			n.dead = append(n.dead, false)
			n.n++
			if ks, ok := concKey(mv.keys[k]); ok {
				n.conc[ks] = id
			} else {
				n.sym = append(n.sym, id)
			}
		}
		return Iface{i.t, n}
	}, "maps.clone")

	// --- sort
	sortSlice := func(g *G, fn *ssa.Function, a []Value) Value {
		s := a[0].(Iface).v.(SliceV)
		less := a[1].(*Closure)
		tc := g.p.w.tc
		for i := 1; i < len(s); i++ {
			for j := i; j > 0; j-- {
				if !g.p.branch(g.callV(less, []Value{tc.Const(64, uint64(j)), tc.Const(64, uint64(j-1))}).(*Term), nil) {
					break
				}
				s[j], s[j-1] = s[j-1], s[j]
			}
		}
		return nil
	}
	reg(sortSlice, "sort.Slice", "sort.SliceStable")

	// --- crypto (high level)
	reg(func(g *G, fn *ssa.Function, a []Value) Value { return g.p.w.tc.T }, "(crypto.Hash).Available")

	// --- url
	reg(func(g *G, fn *ssa.Function, a []Value) Value {
		if q, ok := g.p.side[fmt.Sprintf("query%p", ptr(a[0]))]; ok {
			return q.(Value)
		}
		return notHandled{}
	}, "(*net/url.URL).Query")

	regJSON(reg)
	regTLS(reg)
	regZZ(reg)
	regCrypto(reg)
	return m
}

func (g *G) formatHex(v Value, upper bool) (Value, bool) {
	var ts []*Term
	switch x := v.(type) {
	case SliceV:
		ts = bytesToTerms(x)
	case ArrayV:
		ts = bytesToTerms(SliceV(x))
	case string, *SymStr:
		ts = g.strBytes(x)
	default:
		return nil, false
	}
	if upper {
		return nil, false
	}
	tc := g.p.w.tc
	out := make([]*Term, 0, 2*len(ts))
	for _, t := range ts {
		out = append(out, tc.HexC(tc.Extract(t, 7, 4)), tc.HexC(tc.Extract(t, 3, 0)))
	}
	return g.p.w.mkStr(out), true
}

// formatV renders one operand the way fmt does for the supported verbs.
func (g *G) formatV(a Iface, verb byte, flags int) Value {
	return g.fmtArg(a, verb, "", 0)
}

func (g *G) fmtArg(a Iface, verb byte, flags string, width int) Value {
	if verb == 'T' {
		if a.t == nil {
			return "<nil>"
		}
		return types.TypeString(a.t, func(p *types.Package) string { return p.Name() })
	}
	if a.t == nil {
		if verb == 'v' || verb == 's' {
			if verb == 's' {
				return "%!s(<nil>)"
			}
			return "<nil>"
		}
		return "%!" + string(verb) + "(<nil>)"
	}
	if strings.ContainsAny(flags, "#") {
		panic(abortf("fmt flag %q", flags))
	}
	if verb == 'v' || verb == 's' || verb == 'q' || verb == 'x' || verb == 'w' {
		for _, mn := range []string{"Error", "String"} {
			f := g.p.w.method(a.t, nil, mn)
			if f != nil && f.Signature.Params().Len() == 0 && f.Signature.Results().Len() == 1 && isString(f.Signature.Results().At(0).Type()) {
				s := g.call(f, []Value{copyVal(a.v)}, nil)
				return g.fmtStr(s, verb)
			}
		}
	}
	switch v := a.v.(type) {
	case *Term:
		w, sgn, _ := intInfo(a.t)
		if w == 0 {
			if !v.isConst() {
				if g.p.branch(v, nil) {
					return "true"
				}
				return "false"
			}
			return strconv.FormatBool(v.v == 1)
		}
		switch verb {
		case 'd', 'v':
			t := v
			if t.w < 64 {
				if sgn {
					t = g.p.w.tc.SExt(t, 64)
				} else {
					t = g.p.w.tc.ZExt(t, 64)
				}
			}
			var s Value
			if t.isConst() {
				if sgn {
					s = strconv.FormatInt(int64(t.v), 10)
				} else {
					s = strconv.FormatUint(t.v, 10)
				}
			} else {
				s = lazyStr(t, sgn)
			}
			if strings.Contains(flags, "+") || strings.Contains(flags, " ") {
				panic(abortf("fmt flag %q", flags))
			}
			if width > 0 && width < 19 && strings.Contains(flags, "0") && !strings.Contains(flags, "-") && !t.isConst() {
				lim := uint64(1)
				for i := 0; i < width; i++ {
					lim *= 10
				}
				if g.p.w.tc.umax(t, 0) < lim {
					return g.p.w.mkStr(g.p.w.decDigits(t, width))
				}
			}
			if width > 0 {
				b := g.strBytes(s)
				if len(b) < width {
					tc := g.p.w.tc
					pad := tc.Const(8, ' ')
					neg := false
					if strings.Contains(flags, "0") && !strings.Contains(flags, "-") {
						pad = tc.Const(8, '0')
						neg = len(b) > 0 && b[0].isConst() && b[0].v == '-'
					}
					var out []*Term
					if neg {
						out = append(out, b[0])
						b = b[1:]
						width--
					}
					ps := make([]*Term, width-len(b))
					for i := range ps {
						ps[i] = pad
					}
					if strings.Contains(flags, "-") {
						out = append(append(out, b...), ps...)
					} else {
						out = append(append(out, ps...), b...)
					}
					s = g.p.w.mkStr(out)
				}
			}
			return s
		case 'x', 'X', 'o', 'b', 'c', 'q', 'U':
			if !v.isConst() {
				panic(abortf("fmt %%%c of symbolic integer", verb))
			}
			fs := "%" + flags
			if width > 0 {
				fs += strconv.Itoa(width)
			}
			if sgn {
				return fmt.Sprintf(fs+string(verb), signed(v))
			}
			return fmt.Sprintf(fs+string(verb), v.v)
		}
	case string, *SymStr:
		if verb == 'x' {
			if s, ok := g.formatHex(v, false); ok {
				return s
			}
		}
		if width > 0 {
			panic(abortf("fmt width on string"))
		}
		return g.fmtStr(v, verb)
	case SliceV, ArrayV:
		var et types.Type
		switch u := a.t.Underlying().(type) {
		case *types.Slice:
			et = u.Elem()
		case *types.Array:
			et = u.Elem()
		}
		var cells []Value
		if s, ok := v.(SliceV); ok {
			cells = s
		} else {
			cells = v.(ArrayV)
		}
		if b, ok := et.Underlying().(*types.Basic); ok && b.Kind() == types.Uint8 {
			if verb == 'x' {
				if s, ok := g.formatHex(v, false); ok {
					return s
				}
			}
			if verb == 's' || verb == 'q' {
				return g.fmtStr(g.p.w.mkStr(bytesToTerms(SliceV(cells))), verb)
			}
		}
		var out Value = "["
		for i, e := range cells {
			if i > 0 {
				out = g.concat(out, " ")
			}
			ie := Iface{et, e}
			if x, ok := e.(Iface); ok {
				ie = x
			}
			out = g.concat(out, g.fmtArg(ie, verb, flags, width))
		}
		return g.concat(out, "]")
	case StructV:
		st := a.t.Underlying().(*types.Struct)
		var out Value = "{"
		for i, e := range v {
			if i > 0 {
				out = g.concat(out, " ")
			}
			ie := Iface{st.Field(i).Type(), e}
			if x, ok := e.(Iface); ok {
				ie = x
			}
			out = g.concat(out, g.fmtArg(ie, verb, flags, width))
		}
		return g.concat(out, "}")
	case *Value, *SymPtr, *ChanV, *MapV, *Closure:
		panic(abortf("fmt of %T", v))
	case float64:
		return fmt.Sprintf("%"+flags+string(verb), v)
	}
	panic(abortf("fmt verb %%%c of %s", verb, a.t))
}

func (g *G) fmtStr(s Value, verb byte) Value {
	switch verb {
	case 's', 'v', 'w':
		return s
	case 'q':
		if c, ok := concStr(s); ok {
			return strconv.Quote(c)
		}
	case 'x':
		if r, ok := g.formatHex(s, false); ok {
			return r
		}
	}
	panic(abortf("fmt %%%c of string", verb))
}

// format implements Sprintf; lax renders unsupported operands as "?" (error texts and logs).
func (g *G) format(f string, args []Value, lax bool) (Value, []Iface) {
	var out Value = ""
	var wrapped []Iface
	n := 0
	add := func(s Value) { out = g.concat(out, s) }
	for i := 0; i < len(f); i++ {
		if f[i] != '%' {
			j := strings.IndexByte(f[i:], '%')
			if j < 0 {
				j = len(f) - i
			}
			add(f[i : i+j])
			i += j - 1
			continue
		}
		i++
		if i >= len(f) {
			add("%!(NOVERB)")
			break
		}
		st := i
		for i < len(f) && strings.IndexByte("+-# 0", f[i]) >= 0 {
			i++
		}
		flags := f[st:i]
		width := 0
		for i < len(f) && f[i] >= '0' && f[i] <= '9' {
			width = width*10 + int(f[i]-'0')
			i++
		}
		if i >= len(f) {
			add("%!(NOVERB)")
			break
		}
		verb := f[i]
		if verb == '%' {
			add("%")
			continue
		}
		if verb == '.' || verb == '*' || verb == '[' {
			if lax {
				add("?")
				n++
				for i < len(f) && !(f[i] >= 'a' && f[i] <= 'z') {
					i++
				}
				continue
			}
			panic(abortf("fmt format %q", f))
		}
		if n >= len(args) {
			add("%!" + string(verb) + "(MISSING)")
			continue
		}
		a := args[n].(Iface)
		n++
		if verb == 'w' {
			if a.t != nil {
				wrapped = append(wrapped, a)
			}
			verb = 'v'
		}
		if lax {
			add(g.laxArg(a, verb, flags, width))
			continue
		}
		add(g.fmtArg(a, verb, flags, width))
	}
	if n < len(args) && !lax {
		add("%!(EXTRA)")
	}
	return out, wrapped
}

func (g *G) laxArg(a Iface, verb byte, flags string, width int) (r Value) {
	fr := g.fr
	defer func() {
		if x := recover(); x != nil {
			if pa, ok := x.(pathAbort); ok && pa.kind != abInconclusive {
				panic(x)
			}
			if _, ok := x.(targetPanic); ok {
				panic(x)
			}
			g.fr = fr
			r = "?"
		}
		g.p.noFork--
	}()
	g.p.noFork++
	r = g.fmtArg(a, verb, flags, width)
	if s, ok := r.(*SymStr); ok {
		if s.lazy != nil || len(s.b) > 0 {
			r = "?"
		}
	}
	return r
}

func regFmt(reg func(f Intrinsic, names ...string)) {
	reg(func(g *G, fn *ssa.Function, a []Value) Value {
		s, _ := g.format(g.str(a[0]), a[1].(SliceV), false)
		return s
	}, "fmt.Sprintf")
	sprint := func(ln bool) Intrinsic {
		return func(g *G, fn *ssa.Function, a []Value) Value {
			var out Value = ""
			args := a[0].(SliceV)
			for i, x := range args {
				if i > 0 {
					_, s1 := args[i-1].(Iface).v.(string)
					_, s2 := x.(Iface).v.(string)
					if ln || (!s1 && !s2) {
						out = g.concat(out, " ")
					}
				}
				out = g.concat(out, g.fmtArg(x.(Iface), 'v', "", 0))
			}
			if ln {
				out = g.concat(out, "\n")
			}
			return out
		}
	}
	reg(sprint(false), "fmt.Sprint")
	reg(sprint(true), "fmt.Sprintln")
	reg(func(g *G, fn *ssa.Function, a []Value) Value {
		s, wr := g.format(g.str(a[0]), a[1].(SliceV), true)
		e := g.p.w.eng
		if len(wr) == 1 {
			var v Value = StructV{s, wr[0]}
			return Iface{types.NewPointer(e.namedType("fmt", "wrapError")), &v}
		}
		if len(wr) > 1 {
			sl := SliceV{}
			for _, x := range wr {
				sl = append(sl, x)
			}
			var v Value = StructV{s, sl}
			return Iface{types.NewPointer(e.namedType("fmt", "wrapErrors")), &v}
		}
		var v Value = StructV{s}
		return Iface{types.NewPointer(e.namedType("errors", "errorString")), &v}
	}, "fmt.Errorf")
	write := func(g *G, w Value, s Value) Value {
		i := w.(Iface)
		if i.t == nil {
			g.rtPanic("invalid memory address or nil pointer dereference")
		}
		f := g.p.w.method(i.t, nil, "Write")
		return g.call(f, []Value{copyVal(i.v), termsToSlice(g.strBytes(s))}, nil)
	}
	reg(func(g *G, fn *ssa.Function, a []Value) Value {
		s, _ := g.format(g.str(a[1]), a[2].(SliceV), true)
		return write(g, a[0], s)
	}, "fmt.Fprintf")
	fp := func(ln bool) Intrinsic {
		sp := sprint(ln)
		return func(g *G, fn *ssa.Function, a []Value) Value {
			return write(g, a[0], sp(g, fn, a[1:]))
		}
	}
	reg(fp(false), "fmt.Fprint")
	reg(fp(true), "fmt.Fprintln")
}

var _ = bytes.Equal
