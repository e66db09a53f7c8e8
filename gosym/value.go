package main

// Run-time values of the symbolic interpreter.
//
//   integers, booleans, uintptr : *Term
//   floats                      : float64 (concrete only)
//   strings                     : string (concrete) or *SymStr
//   pointers                    : *Value, *SymPtr (element of an array at a symbolic index); nil *Value is nil
//   slices                      : SliceV (Go slice of cells; nil is nil)
//   structs / arrays            : StructV / ArrayV (copied on load and store)
//   maps, channels              : *MapV, *ChanV
//   interfaces                  : Iface
//   functions                   : *Closure

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type Value interface{}

type SliceV []Value
type StructV []Value
type ArrayV []Value
type TupleV []Value

type SymStr struct {
	b    []*Term
	lazy *LazyDec
}

// LazyDec is the decimal rendering of an integer term whose number of digits is not decided yet.
type LazyDec struct {
	t      *Term // 64 bit
	signed bool
}

type SymPtr struct {
	base []Value
	idx  *Term
}

type Iface struct {
	t types.Type
	v Value
}

type Closure struct {
	fn   *ssa.Function
	free []Value
	nat  func(g *G, args []Value) Value
	name string
}

type Poison struct{ why string }

type MapV struct {
	keys []Value
	vals []Value
	dead []bool
	conc map[string]int
	sym  []int
	n    int
}

type RangeIter struct {
	m    *MapV
	pos  int
	str  Value
	spos int
}

func newMap() *MapV { return &MapV{conc: map[string]int{}} }

// encKey encodes a fully concrete key, ok=false if some part is symbolic.
func encKey(v Value, sb *strings.Builder) bool {
	switch v := v.(type) {
	case *Term:
		if !v.isConst() {
			return false
		}
		fmt.Fprintf(sb, "i%d:%s;", v.w, v.bigVal().Text(62))
		return true
	case string:
		fmt.Fprintf(sb, "s%d:%s;", len(v), v)
		return true
	case *SymStr:
		return false
	case ArrayV:
		for _, e := range v {
			if !encKey(e, sb) {
				return false
			}
		}
		sb.WriteString("a;")
		return true
	case StructV:
		for _, e := range v {
			if !encKey(e, sb) {
				return false
			}
		}
		sb.WriteString("t;")
		return true
	case *Value:
		fmt.Fprintf(sb, "p%p;", v)
		return true
	case *ChanV:
		fmt.Fprintf(sb, "c%p;", v)
		return true
	case Iface:
		if v.t == nil {
			sb.WriteString("n;")
			return true
		}
		fmt.Fprintf(sb, "I%s:", types.TypeString(v.t, nil))
		return encKey(v.v, sb)
	case float64:
		fmt.Fprintf(sb, "f%v;", v)
		return true
	}
	return false
}

func concKey(v Value) (string, bool) {
	var sb strings.Builder
	ok := encKey(v, &sb)
	return sb.String(), ok
}

func copyVal(v Value) Value {
	switch v := v.(type) {
	case StructV:
		n := make(StructV, len(v))
		for i, e := range v {
			switch e.(type) {
			case StructV, ArrayV:
				n[i] = copyVal(e)
			default:
				n[i] = e
			}
		}
		return n
	case ArrayV:
		n := make(ArrayV, len(v))
		copy(n, v)
		if len(v) > 0 {
			switch v[0].(type) {
			case StructV, ArrayV:
				for i, e := range v {
					n[i] = copyVal(e)
				}
			}
		}
		return n
	}
	return v
}

func intInfo(t types.Type) (w int32, signed bool, ok bool) {
	b, isb := t.Underlying().(*types.Basic)
	if !isb {
		return 0, false, false
	}
	switch b.Kind() {
	case types.Bool, types.UntypedBool:
		return 0, false, true
	case types.Int, types.Int64, types.UntypedInt:
		return 64, true, true
	case types.Int8:
		return 8, true, true
	case types.Int16:
		return 16, true, true
	case types.Int32, types.UntypedRune:
		return 32, true, true
	case types.Uint, types.Uint64, types.Uintptr:
		return 64, false, true
	case types.Uint8:
		return 8, false, true
	case types.Uint16:
		return 16, false, true
	case types.Uint32:
		return 32, false, true
	}
	return 0, false, false
}

func isString(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}

func isFloat(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsFloat != 0
}

func (w *Worker) zero(t types.Type) Value {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		if wd, _, ok := intInfo(u); ok {
			return w.tc.Const(wd, 0)
		}
		if u.Info()&types.IsString != 0 {
			return ""
		}
		if u.Info()&types.IsFloat != 0 {
			return float64(0)
		}
		if u.Kind() == types.UnsafePointer {
			return (*Value)(nil)
		}
		if u.Kind() == types.UntypedNil {
			return (*Value)(nil)
		}
		if u.Info()&types.IsComplex != 0 {
			return Poison{"complex"}
		}
	case *types.Pointer:
		return (*Value)(nil)
	case *types.Slice:
		return SliceV(nil)
	case *types.Struct:
		s := make(StructV, u.NumFields())
		for i := range s {
			s[i] = w.zero(u.Field(i).Type())
		}
		return s
	case *types.Array:
		n := int(u.Len())
		a := make(ArrayV, n)
		if n > 0 {
			z := w.zero(u.Elem())
			for i := range a {
				a[i] = z
			}
			switch z.(type) {
			case StructV, ArrayV:
				for i := range a {
					a[i] = copyVal(z)
				}
			}
		}
		return a
	case *types.Map:
		return (*MapV)(nil)
	case *types.Chan:
		return (*ChanV)(nil)
	case *types.Interface:
		return Iface{}
	case *types.Signature:
		return (*Closure)(nil)
	case *types.Tuple:
		tv := make(TupleV, u.Len())
		for i := range tv {
			tv[i] = w.zero(u.At(i).Type())
		}
		return tv
	}
	panic(abortf("zero value of type %s", t))
}

// ---- strings

func strLen(g *G, v Value) int {
	switch v := v.(type) {
	case string:
		return len(v)
	case *SymStr:
		return len(g.force(v).b)
	}
	panic(abortf("strLen of %T", v))
}

func (w *Worker) mkStr(b []*Term) Value {
	for _, t := range b {
		if !t.isConst() {
			return &SymStr{b: b}
		}
	}
	bs := make([]byte, len(b))
	for i, t := range b {
		bs[i] = byte(t.v)
	}
	return string(bs)
}

func (g *G) strBytes(v Value) []*Term {
	switch v := v.(type) {
	case string:
		out := make([]*Term, len(v))
		c8 := g.p.w.tc.small[8]
		for i := 0; i < len(v); i++ {
			out[i] = c8[v[i]]
		}
		return out
	case *SymStr:
		return g.force(v).b
	}
	panic(abortf("strBytes of %T", v))
}

func bytesToTerms(s SliceV) []*Term {
	out := make([]*Term, len(s))
	for i, e := range s {
		t, ok := e.(*Term)
		if !ok {
			panic(abortf("byte slice element is %T", e))
		}
		out[i] = t
	}
	return out
}

func termsToSlice(ts []*Term) SliceV {
	out := make(SliceV, len(ts))
	for i, t := range ts {
		out[i] = t
	}
	return out
}

func allConst(ts []*Term) bool {
	for _, t := range ts {
		if !t.isConst() {
			return false
		}
	}
	return true
}

func concBytes(ts []*Term) []byte {
	out := make([]byte, len(ts))
	for i, t := range ts {
		out[i] = byte(t.v)
	}
	return out
}

func (w *Worker) constBytes(b []byte) SliceV {
	out := make(SliceV, len(b))
	for i, x := range b {
		out[i] = w.tc.small[8][x]
	}
	return out
}

// force decides the number of digits of a lazy decimal string.
func (g *G) force(s *SymStr) *SymStr {
	if s.lazy == nil {
		return s
	}
	l := s.lazy
	tc := g.p.w.tc
	v := l.t
	neg := false
	if l.signed && g.p.branch(tc.Slt(v, tc.Const(64, 0)), nil) {
		neg = true
		v = tc.Neg(v)
	}
	n := 1
	lim := uint64(10)
	for n < 20 {
		if g.p.branch(tc.Ult(v, tc.Const(64, lim)), nil) {
			break
		}
		n++
		if n < 20 {
			lim *= 10
		}
	}
	s.b = g.p.w.decDigits(v, n)
	if neg {
		s.b = append([]*Term{tc.Const(8, '-')}, s.b...)
	}
	s.lazy = nil
	if len(s.b) > 1 {
		if g.p.digits == nil {
			g.p.digits = map[string]*LazyDec{}
		}
		g.p.digits[termKey(s.b)] = l
	}
	return s
}

func termKey(ts []*Term) string {
	var b strings.Builder
	for _, t := range ts {
		fmt.Fprintf(&b, "%p,", t)
	}
	return b.String()
}

// decimal recognises a text that is the decimal rendering of a term on this path.
func (g *G) decimal(ts []*Term, signed bool) *Term {
	if allConst(ts) {
		return nil
	}
	l := g.p.digits[termKey(ts)]
	if l == nil {
		return nil
	}
	if l.signed != signed && !g.p.branch(g.p.w.tc.Sle(g.p.w.tc.Const(64, 0), l.t), nil) {
		return nil
	}
	return l.t
}

// decDigits renders the n low decimal digits of v.
func (w *Worker) decDigits(v *Term, n int) []*Term {
	tc := w.tc
	out := make([]*Term, n)
	div := uint64(1)
	for i := n - 1; i >= 0; i-- {
		q := tc.UDiv(v, tc.Const(v.w, div))
		d := tc.URem(q, tc.Const(v.w, 10))
		out[i] = tc.Add(tc.Extract(d, 7, 0), tc.Const(8, '0'))
		div *= 10
	}
	return out
}

// ---- aborts

type abortKind int

const (
	abInconclusive abortKind = iota
	abKilled
	abEnd      // path finished (assume false, explicit end)
	abExit     // os.Exit / log.Fatal
	abViolated // violation recorded, path ends
)

type pathAbort struct {
	kind abortKind
	why  string
}

func abortf(f string, args ...any) pathAbort {
	return pathAbort{abInconclusive, fmt.Sprintf(f, args...)}
}

type targetPanic struct{ v Value }

func valStr(v Value) string {
	switch v := v.(type) {
	case *Term:
		return v.String()
	case string:
		return fmt.Sprintf("%q", v)
	case *SymStr:
		if v.lazy != nil {
			return "lazy(" + v.lazy.t.String() + ")"
		}
		return fmt.Sprintf("symstr(%d)", len(v.b))
	case Iface:
		if v.t == nil {
			return "nil"
		}
		return types.TypeString(v.t, nil) + "(" + valStr(v.v) + ")"
	case SliceV:
		return fmt.Sprintf("slice(%d)", len(v))
	case StructV:
		var s []string
		for _, e := range v {
			s = append(s, valStr(e))
		}
		return "{" + strings.Join(s, ",") + "}"
	case *Value:
		if v == nil {
			return "nilptr"
		}
		return "&" + fmt.Sprintf("%T", *v)
	}
	return fmt.Sprintf("%T", v)
}
