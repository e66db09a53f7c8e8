package main

// Primitives of the harness package itko.dev/internal/zzsym.

import (
	"fmt"
	"math/big"
	"math/bits"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func regZZ(reg func(f Intrinsic, names ...string)) {
	zz := func(name string, f Intrinsic) { reg(f, zzPath+"."+name) }
	intv := func(w int32) Intrinsic {
		return func(g *G, fn *ssa.Function, a []Value) Value { return g.p.newVar(w, g.str(a[0])) }
	}
	zz("U64", intv(64))
	zz("I64", intv(64))
	zz("Int", intv(64))
	zz("U32", intv(32))
	zz("U16", intv(16))
	zz("U8", intv(8))
	zz("Bool", func(g *G, fn *ssa.Function, a []Value) Value {
		tc := g.p.w.tc
		return tc.Eq(g.p.newVar(1, g.str(a[0])), tc.Const(1, 1))
	})
	zz("Symbolic", func(g *G, fn *ssa.Function, a []Value) Value { return g.p.w.tc.T })
	wide := func(g *G, name string, n int) []*Term {
		if n == 0 {
			return nil
		}
		return g.p.w.splitBytes(g.p.newVar(int32(8*n), name))
	}
	zz("Bytes", func(g *G, fn *ssa.Function, a []Value) Value {
		s := termsToSlice(wide(g, g.str(a[0]), int(g.cint(a[1]))))
		if s == nil {
			s = SliceV{}
		}
		return s
	})
	zz("Hash", func(g *G, fn *ssa.Function, a []Value) Value { return toArray(wide(g, g.str(a[0]), 32)) })
	zz("Hash16", func(g *G, fn *ssa.Function, a []Value) Value { return toArray(wide(g, g.str(a[0]), 16)) })
	zz("Str", func(g *G, fn *ssa.Function, a []Value) Value {
		return g.p.w.mkStr(wide(g, g.str(a[0]), int(g.cint(a[1]))))
	})
	zz("Choice", func(g *G, fn *ssa.Function, a []Value) Value {
		p := g.p
		n := int(g.cint(a[1]))
		c := p.choose(n)
		t := p.w.tc.Const(64, uint64(c))
		p.vars = append(p.vars, symVar{p.uniq(g.str(a[0])), t})
		return t
	})
	zz("Range", func(g *G, fn *ssa.Function, a []Value) Value {
		p := g.p
		lo, hi := g.cint(a[1]), g.cint(a[2])
		c := p.choose(int(hi - lo + 1))
		t := p.w.tc.Const(64, uint64(lo+int64(c)))
		p.vars = append(p.vars, symVar{p.uniq(g.str(a[0])), t})
		return t
	})
	// Below is an arbitrary value smaller than a constant.
	zz("Below", func(g *G, fn *ssa.Function, a []Value) Value {
		tc := g.p.w.tc
		n := uint64(g.cint(a[1]))
		w := int32(bits.Len64(n - 1))
		t := g.p.newVarB(w, g.str(a[0]), n-1)
		r := tc.ZExt(t, 64)
		if n-1 != mask(w) {
			g.p.assume(tc.Ule(t, tc.Const(w, n-1)))
		}
		return r
	})
	// Conc enumerates the feasible values of an integer.
	zz("Conc", func(g *G, fn *ssa.Function, a []Value) Value {
		t := a[0].(*Term)
		return g.p.w.tc.Const(t.w, g.p.concretize(t))
	})
	zz("Assume", func(g *G, fn *ssa.Function, a []Value) Value {
		g.p.assume(a[0].(*Term))
		return nil
	})
	zz("Assert", func(g *G, fn *ssa.Function, a []Value) Value {
		if g.foreign(a[1]) {
			return nil
		}
		g.p.assertT(g, a[0].(*Term), g.str(a[1]))
		return nil
	})
	zz("Fail", func(g *G, fn *ssa.Function, a []Value) Value {
		if g.foreign(a[0]) {
			return nil
		}
		g.p.assertT(g, g.p.w.tc.F, g.str(a[0]))
		return nil
	})
	zz("Stop", func(g *G, fn *ssa.Function, a []Value) Value { panic(pathAbort{abEnd, "stop"}) })
	bools := func(v Value) []*Term {
		var ts []*Term
		for _, x := range v.(SliceV) {
			ts = append(ts, x.(*Term))
		}
		return ts
	}
	zz("All", func(g *G, fn *ssa.Function, a []Value) Value { return g.p.w.tc.BAndN(bools(a[0])...) })
	zz("Any", func(g *G, fn *ssa.Function, a []Value) Value { return g.p.w.tc.BOrN(bools(a[0])...) })
	zz("Implies", func(g *G, fn *ssa.Function, a []Value) Value {
		tc := g.p.w.tc
		return tc.BOr(tc.BNot(a[0].(*Term)), a[1].(*Term))
	})
	zz("Iff", func(g *G, fn *ssa.Function, a []Value) Value {
		tc := g.p.w.tc
		x, y := a[0].(*Term), a[1].(*Term)
		return tc.BOr(tc.BAnd(x, y), tc.BAnd(tc.BNot(x), tc.BNot(y)))
	})
	zz("Not", func(g *G, fn *ssa.Function, a []Value) Value { return g.p.w.tc.BNot(a[0].(*Term)) })
	zz("EqBytes", func(g *G, fn *ssa.Function, a []Value) Value { return g.bytesEq(g.bytesOf(a[0]), g.bytesOf(a[1])) })
	zz("EqStr", func(g *G, fn *ssa.Function, a []Value) Value { return g.equals(fn.Signature.Params().At(0).Type(), a[0], a[1]) })
	ite := func(g *G, fn *ssa.Function, a []Value) Value {
		return g.p.w.tc.Ite(a[0].(*Term), a[1].(*Term), a[2].(*Term))
	}
	zz("IteU64", ite)
	zz("IteI64", ite)
	zz("IteHash", func(g *G, fn *ssa.Function, a []Value) Value {
		x, y := a[1].(ArrayV), a[2].(ArrayV)
		tc := g.p.w.tc
		xs, ys := bytesToTerms(SliceV(x)), bytesToTerms(SliceV(y))
		return toArray(g.p.w.splitBytes(tc.Ite(a[0].(*Term), tc.Concat(xs...), tc.Concat(ys...))))
	})
	// IsSym reports whether the content of a byte string is symbolic.
	zz("IsSym", func(g *G, fn *ssa.Function, a []Value) Value { return g.p.w.tc.Bool(!allConst(g.bytesOf(a[0]))) })
	zz("Param", func(g *G, fn *ssa.Function, a []Value) Value {
		if v, ok := g.p.job.params[g.str(a[0])]; ok {
			return g.p.w.tc.Const(64, uint64(v))
		}
		return a[1]
	})
	zz("Reach", func(g *G, fn *ssa.Function, a []Value) Value {
		if !g.p.inPrefix() || true {
			g.p.reached[g.str(a[0])] = true
		}
		return nil
	})
	zz("Observe", func(g *G, fn *ssa.Function, a []Value) Value {
		g.p.obs = append(g.p.obs, struct {
			name string
			t    Value
		}{g.str(a[0]), a[1]})
		return nil
	})
	zz("AtEnd", func(g *G, fn *ssa.Function, a []Value) Value {
		g.p.atEnd = append(g.p.atEnd, a[0].(*Closure))
		return nil
	})
	zz("AllowPanic", func(g *G, fn *ssa.Function, a []Value) Value { g.p.allowPanic = true; return nil })
	zz("AllowDeadlock", func(g *G, fn *ssa.Function, a []Value) Value { g.p.allowDeadlock = true; return nil })
	zz("Explore", func(g *G, fn *ssa.Function, a []Value) Value { g.p.explore = int(g.cint(a[0])); return nil })
	zz("Timers", func(g *G, fn *ssa.Function, a []Value) Value {
		g.p.timerBud = int(g.cint(a[0]))
		g.p.timerDl = int(g.cint(a[1]))
		return nil
	})
	zz("VirtualClock", func(g *G, fn *ssa.Function, a []Value) Value {
		g.p.virtual = true
		g.p.timerDl = int(g.cint(a[0]))
		return nil
	})
	// Advance lets the other goroutines run until they block, then moves the virtual clock forward.
	settle := func(g *G) {
		p := g.p
		for {
			var n *G
			for _, x := range p.gs {
				if x != g && x.state != 2 && x.runnable() {
					n = x
					break
				}
			}
			if n == nil {
				return
			}
			others := func() bool {
				for _, x := range p.gs {
					if x != g && x.state != 2 && x.runnable() {
						return false
					}
				}
				return true
			}
			g.state = 1
			g.ready = others
			g.what = "settle"
			nx := p.pick(g)
			if nx == nil {
				panic(abortf("settle: nothing to run"))
			}
			if nx != g {
				g.handoff(nx)
			}
			g.state = 0
			g.ready = nil
		}
	}
	zz("Settle", func(g *G, fn *ssa.Function, a []Value) Value { settle(g); return nil })
	zz("Advance", func(g *G, fn *ssa.Function, a []Value) Value {
		p := g.p
		settle(g)
		end := p.vnow + g.cint(a[0])
		for {
			var best *ChanV
			for _, c := range p.timers {
				if !c.fired && !c.stopped && c.deadline <= end && (best == nil || c.deadline < best.deadline) {
					best = c
				}
			}
			if best == nil {
				break
			}
			p.vnow = max(p.vnow, best.deadline)
			p.fireDue()
			settle(g)
		}
		p.vnow = end
		p.fireDue()
		settle(g)
		return nil
	})
	// Delay lets every other goroutine run until it blocks (delayed ones one after another).
	zz("Delay", func(g *G, fn *ssa.Function, a []Value) Value {
		p := g.p
		g.low = true
		busy := func() bool {
			for _, x := range p.gs {
				if x != g && x.state != 2 && !x.low && !(x.state == 1 && x.what == "settle") && x.runnable() {
					return true
				}
			}
			return false
		}
		for busy() {
			g.block(func() bool { return !busy() }, "delay")
		}
		g.low = false
		return nil
	})
	zz("SetQuery", func(g *G, fn *ssa.Function, a []Value) Value {
		m := a[1].(*MapV)
		g.p.side[fmt.Sprintf("query%p", ptr(a[0]))] = Value(m)
		return nil
	})
	zz("Key", func(g *G, fn *ssa.Function, a []Value) Value { return g.testKey(int(g.cint(a[0]))) })
	zz("Log", func(g *G, fn *ssa.Function, a []Value) Value { return nil })
	zz("Debug", func(g *G, fn *ssa.Function, a []Value) Value {
		fmt.Println("DEBUG", g.str(a[0]), valDump(a[1]))
		return nil
	})
	zz("Digest", func(g *G, fn *ssa.Function, a []Value) Value {
		return toArray(g.p.w.splitBytes(g.sha256T(bytesToTerms(a[0].(SliceV)))))
	})
	// Opaque applies an uninterpreted (injective) function to bytes: n result bytes.
	zz("Opaque", func(g *G, fn *ssa.Function, a []Value) Value {
		in := bytesToTerms(a[1].(SliceV))
		n := int(g.cint(a[2]))
		return termsToSlice(g.p.w.splitBytes(g.uf("H!"+g.str(a[0]), 8*n, in)))
	})
	zz("Less", func(g *G, fn *ssa.Function, a []Value) Value {
		tc := g.p.w.tc
		x, y := bytesToTerms(a[0].(SliceV)), bytesToTerms(a[1].(SliceV))
		if len(x) != len(y) {
			panic(abortf("zzsym.Less: lengths differ"))
		}
		if len(x) == 0 {
			return tc.F
		}
		return tc.Ult(tc.Concat(x...), tc.Concat(y...))
	})
	zz("SubBE", func(g *G, fn *ssa.Function, a []Value) Value {
		tc := g.p.w.tc
		x, y := bytesToTerms(a[0].(SliceV)), bytesToTerms(a[1].(SliceV))
		return termsToSlice(g.p.w.splitBytes(tc.Sub(tc.Concat(x...), tc.Concat(y...))))
	})
	zz("IteBytes", func(g *G, fn *ssa.Function, a []Value) Value {
		tc := g.p.w.tc
		x, y := bytesToTerms(a[1].(SliceV)), bytesToTerms(a[2].(SliceV))
		if len(x) == 0 {
			return SliceV{}
		}
		return termsToSlice(g.p.w.splitBytes(tc.Ite(a[0].(*Term), tc.Concat(x...), tc.Concat(y...))))
	})
	zz("Opaque2", func(g *G, fn *ssa.Function, a []Value) Value {
		tc := g.p.w.tc
		x, y := tc.Concat(bytesToTerms(a[1].(SliceV))...), tc.Concat(bytesToTerms(a[2].(SliceV))...)
		n := int32(g.cint(a[3]))
		if a[4].(*Term).isTrue() && y.id < x.id {
			x, y = y, x
		}
		return termsToSlice(g.p.w.splitBytes(tc.UF(8*n, fmt.Sprintf("N!%s@%d.%d", g.str(a[0]), x.w, y.w), tc.Concat(x, y))))
	})
	// OpaqueN is Opaque without the injectivity assumption.
	zz("OpaqueN", func(g *G, fn *ssa.Function, a []Value) Value {
		in := bytesToTerms(a[1].(SliceV))
		n := int(g.cint(a[2]))
		return termsToSlice(g.p.w.splitBytes(g.uf("N!"+g.str(a[0]), 8*n, in)))
	})
}

// foreign reports whether an assertion belongs to a property other than the one being checked.
func (g *G) foreign(msg Value) bool {
	n := g.p.job.params["prop"]
	who, _, ok := strings.Cut(g.str(msg), ": ")
	if n == 0 || !ok || g.p.job.params["all"] != 0 {
		return false
	}
	for _, id := range strings.Split(who, ",") {
		if len(id) != 3 || id[0] != 'C' || id[1:] == fmt.Sprintf("%02d", n) {
			return false
		}
	}
	return true
}

func (g *G) uf(name string, w int, in []*Term) *Term {
	tc := g.p.w.tc
	nm := fmt.Sprintf("%s@%d", name, len(in))
	if len(in) == 0 {
		return tc.UF(int32(w), nm, tc.Const(8, 0))
	}
	return tc.UF(int32(w), nm, tc.Concat(in...))
}

func valDump(v Value) string {
	if s, ok := v.(Iface); ok {
		v = s.v
	}
	switch x := v.(type) {
	case SliceV:
		var sb strings.Builder
		for i, e := range x {
			if i > 0 {
				sb.WriteString(" ")
			}
			sb.WriteString(valStr(e))
		}
		return "[" + sb.String() + "]"
	case *SymStr:
		var sb strings.Builder
		for _, t := range x.b {
			if t.isConst() {
				sb.WriteByte(byte(t.v))
			} else {
				sb.WriteString("<" + t.String() + ">")
			}
		}
		return sb.String()
	}
	return valStr(v)
}

var _ = big.NewInt
