package main

// Hash-consed bit-vector / boolean terms with local simplification.
//
// Width 0 means Bool. Bit-vectors may have any width > 0; constants wider than 64 bits are
// kept as big.Int. Every constructor returns a term equivalent to the operation it names
// under the SMT-LIB semantics of QF_UFBV, with one documented exception: equality of two
// applications of a "collision free" uninterpreted function (names starting with "H!")
// is rewritten to equality of their arguments (see eqInjective), which is the stated
// collision-freedom assumption on SHA-256 / HMAC.

import (
	"fmt"
	"math/big"
	"math/bits"
	"sort"
	"strings"
)

type Op uint8

const (
	OConst Op = iota
	OVar
	OUF
	OAdd
	OSub
	OMul
	OUDiv
	OSDiv
	OURem
	OSRem
	OAnd
	OOr
	OXor
	ONot
	ONeg
	OShl
	OLShr
	OAShr
	OConcat
	OExtract
	OSExt
	OIte
	OEq
	OUlt
	OUle
	OSlt
	OSle
	OBAnd
	OBOr
	OBNot
	OHex // 4-bit value to lowercase hex digit character
	OB64 // 6-bit value to standard base64 character
)

var opName = map[Op]string{OAdd: "bvadd", OSub: "bvsub", OMul: "bvmul", OUDiv: "bvudiv", OSDiv: "bvsdiv", OURem: "bvurem", OSRem: "bvsrem",
	OAnd: "bvand", OOr: "bvor", OXor: "bvxor", ONot: "bvnot", ONeg: "bvneg", OShl: "bvshl", OLShr: "bvlshr", OAShr: "bvashr", OConcat: "concat",
	OIte: "ite", OEq: "=", OUlt: "bvult", OUle: "bvule", OSlt: "bvslt", OSle: "bvsle", OBAnd: "and", OBOr: "or", OBNot: "not", OHex: "hexc", OB64: "b64c"}

type Term struct {
	op   Op
	w    int32
	v    uint64   // constant value (w<=64); low bit for extract
	big  *big.Int // constant value for w>64
	a    []*Term
	name string
	id   uint32
	ub   uint64 // inclusive upper bound of a variable (0: none)
	hasU bool // contains an uninterpreted function application
}

func (t *Term) isConst() bool { return t.op == OConst }
func (t *Term) isTrue() bool  { return t.op == OConst && t.w == 0 && t.v == 1 }
func (t *Term) isFalse() bool { return t.op == OConst && t.w == 0 && t.v == 0 }

type tkey struct {
	op         Op
	w          int32
	v          uint64
	a0, a1, a2 uint32
}

// TC is a term context. It is not safe for concurrent use: each worker has its own.
type TC struct {
	tab    map[tkey]*Term
	stab   map[string]*Term
	nextID uint32
	small  [65][]*Term // small constants by width (only widths 8,16,32,64 populated)
	T, F   *Term
	hashOf map[*Term]*Term // constant digest -> its symbolic form (UF application on the preimage)
	preOf  map[*Term]*Term // the same for the first 16 bytes of a digest
}

func NewTC() *TC {
	c := &TC{tab: make(map[tkey]*Term), stab: make(map[string]*Term), nextID: 1, hashOf: map[*Term]*Term{}, preOf: map[*Term]*Term{}}
	for _, w := range []int{8, 16, 32, 64} {
		n := 1024
		if w == 8 {
			n = 256
		}
		c.small[w] = make([]*Term, n)
		for i := range c.small[w] {
			c.small[w][i] = c.mkConst(int32(w), uint64(i))
		}
	}
	c.F = c.mkConst(0, 0)
	c.T = c.mkConst(0, 1)
	return c
}

func (c *TC) newID() uint32 { c.nextID++; return c.nextID }

func mask(w int32) uint64 {
	if w >= 64 {
		return ^uint64(0)
	}
	return (uint64(1) << uint(w)) - 1
}

func (c *TC) mkConst(w int32, v uint64) *Term {
	k := tkey{op: OConst, w: w, v: v}
	if t, ok := c.tab[k]; ok {
		return t
	}
	t := &Term{op: OConst, w: w, v: v, id: c.newID()}
	c.tab[k] = t
	return t
}

// Const builds a constant of width w<=64 (w>64 is zero extended).
func (c *TC) Const(w int32, v uint64) *Term {
	if w > 64 {
		return c.BigConst(w, new(big.Int).SetUint64(v))
	}
	if w == 0 {
		v &= 1
	} else {
		v &= mask(w)
	}
	if w > 0 {
		if s := c.small[w]; v < uint64(len(s)) {
			return s[v]
		}
	}
	return c.mkConst(w, v)
}

func (c *TC) BigConst(w int32, b *big.Int) *Term {
	if w <= 64 {
		return c.Const(w, b.Uint64())
	}
	key := fmt.Sprintf("c%d:%s", w, b.Bytes())
	if t, ok := c.stab[key]; ok {
		return t
	}
	t := &Term{op: OConst, w: w, big: new(big.Int).Set(b), id: c.newID()}
	c.stab[key] = t
	return t
}

func (t *Term) bigVal() *big.Int {
	if t.w <= 64 {
		return new(big.Int).SetUint64(t.v)
	}
	return t.big
}

func (c *TC) Bool(b bool) *Term {
	if b {
		return c.T
	}
	return c.F
}

func (c *TC) Var(w int32, name string) *Term {
	key := "v" + name
	if t, ok := c.stab[key]; ok {
		if t.w != w {
			panic(fmt.Sprintf("variable %s redeclared with width %d (was %d)", name, w, t.w))
		}
		return t
	}
	t := &Term{op: OVar, w: w, name: name, id: c.newID()}
	c.stab[key] = t
	return t
}

// UF applies an uninterpreted function; the function symbol is specialised by argument widths.
func (c *TC) UF(w int32, name string, args ...*Term) *Term {
	var sb strings.Builder
	sb.WriteString("u")
	sb.WriteString(name)
	for _, a := range args {
		fmt.Fprintf(&sb, ":%d", a.id)
	}
	fmt.Fprintf(&sb, ">%d", w)
	key := sb.String()
	if t, ok := c.stab[key]; ok {
		return t
	}
	t := &Term{op: OUF, w: w, name: name, a: append([]*Term(nil), args...), id: c.newID(), hasU: true}
	c.stab[key] = t
	return t
}

func (c *TC) mk(op Op, w int32, v uint64, args ...*Term) *Term {
	if len(args) <= 3 {
		k := tkey{op: op, w: w, v: v}
		for i, a := range args {
			switch i {
			case 0:
				k.a0 = a.id
			case 1:
				k.a1 = a.id
			case 2:
				k.a2 = a.id
			}
		}
		if t, ok := c.tab[k]; ok {
			return t
		}
		t := &Term{op: op, w: w, v: v, a: append([]*Term(nil), args...), id: c.newID()}
		for _, a := range args {
			t.hasU = t.hasU || a.hasU
		}
		c.tab[k] = t
		return t
	}
	b := make([]byte, 0, 8+len(args)*5)
	b = append(b, 'n', byte(op), byte(w), byte(w>>8), byte(w>>16))
	for _, a := range args {
		b = append(b, byte(a.id), byte(a.id>>8), byte(a.id>>16), byte(a.id>>24))
	}
	key := string(b)
	if t, ok := c.stab[key]; ok {
		return t
	}
	t := &Term{op: op, w: w, v: v, a: append([]*Term(nil), args...), id: c.newID()}
	for _, a := range args {
		t.hasU = t.hasU || a.hasU
	}
	c.stab[key] = t
	return t
}

func signed(t *Term) int64 {
	return int64(t.v<<(64-uint(t.w))) >> (64 - uint(t.w))
}

// sigBits returns an upper bound on the number of significant bits of t.
func (c *TC) sigBits(t *Term) int32 { return c.sigBitsD(t, 0) }

func (c *TC) sigBitsD(t *Term, d int) int32 {
	if d > 12 {
		return t.w
	}
	switch t.op {
	case OConst:
		if t.w <= 64 {
			return int32(bits.Len64(t.v))
		}
		return int32(t.big.BitLen())
	case OConcat:
		top := t.a[0]
		rest := t.w - top.w
		s := c.sigBitsD(top, d+1)
		if s > 0 {
			return rest + s
		}
		for i := 1; i < len(t.a); i++ {
			rest -= t.a[i].w
			if s := c.sigBitsD(t.a[i], d+1); s > 0 {
				return rest + s
			}
		}
		return 0
	case OAdd:
		m := max(c.sigBitsD(t.a[0], d+1), c.sigBitsD(t.a[1], d+1)) + 1
		return min(m, t.w)
	case OMul:
		m := c.sigBitsD(t.a[0], d+1) + c.sigBitsD(t.a[1], d+1)
		return min(m, t.w)
	case OAnd:
		return min(c.sigBitsD(t.a[0], d+1), c.sigBitsD(t.a[1], d+1))
	case OOr, OXor:
		return max(c.sigBitsD(t.a[0], d+1), c.sigBitsD(t.a[1], d+1))
	case OIte:
		return max(c.sigBitsD(t.a[1], d+1), c.sigBitsD(t.a[2], d+1))
	case OURem:
		if t.a[1].isConst() && t.w <= 64 && t.a[1].v > 0 {
			return min(int32(bits.Len64(t.a[1].v-1)), c.sigBitsD(t.a[0], d+1))
		}
	case OUDiv:
		if t.a[1].isConst() && t.w <= 64 && t.a[1].v > 0 {
			s := c.sigBitsD(t.a[0], d+1) - int32(bits.Len64(t.a[1].v)) + 1
			return max(s, 0)
		}
	case OExtract:
		if t.v == 0 {
			return min(t.w, c.sigBitsD(t.a[0], d+1))
		}
	}
	return t.w
}

func (c *TC) nonNeg(t *Term) bool { return c.sigBits(t) < t.w }

func (c *TC) Add(a, b *Term) *Term {
	if a.isConst() && b.isConst() && a.w <= 64 {
		return c.Const(a.w, a.v+b.v)
	}
	if a.isConst() {
		a, b = b, a
	}
	if b.isConst() && a.w <= 64 {
		if b.v == 0 {
			return a
		}
		if a.op == OAdd && a.a[1].isConst() {
			return c.Add(a.a[0], c.Const(a.w, a.a[1].v+b.v))
		}
		if a.op == OIte && a.a[1].isConst() && a.a[2].isConst() {
			return c.Ite(a.a[0], c.Const(a.w, a.a[1].v+b.v), c.Const(a.w, a.a[2].v+b.v))
		}
	} else if a.w <= 64 {
		// pull constants outward
		if a.op == OAdd && a.a[1].isConst() {
			return c.Add(c.Add(a.a[0], b), a.a[1])
		}
		if b.op == OAdd && b.a[1].isConst() {
			return c.Add(c.Add(a, b.a[0]), b.a[1])
		}
		// disjoint bits: add is or
		if r := c.disjointOr(a, b); r != nil {
			return r
		}
		if a.op == OSub && a.a[1] == b {
			return a.a[0]
		}
		if b.op == OSub && b.a[1] == a {
			return b.a[0]
		}
	}
	if !b.isConst() && a.id > b.id {
		a, b = b, a
	}
	return c.mk(OAdd, a.w, 0, a, b)
}

// disjointOr merges two terms whose non-zero segments do not overlap.
func (c *TC) disjointOr(a, b *Term) *Term {
	if a.op != OConcat || b.op != OConcat {
		return nil
	}
	ok := true
	r := c.piecewise(a, b, func(x, y *Term) *Term {
		if x.isConst() && x.bigVal().Sign() == 0 {
			return y
		}
		if y.isConst() && y.bigVal().Sign() == 0 {
			return x
		}
		ok = false
		return x
	})
	if !ok {
		return nil
	}
	return r
}

func (c *TC) Sub(a, b *Term) *Term {
	if a == b {
		return c.Const(a.w, 0)
	}
	if b.isConst() && a.w <= 64 {
		return c.Add(a, c.Const(a.w, -b.v))
	}
	if a.w <= 64 {
		if a.op == OAdd {
			if a.a[0] == b {
				return a.a[1]
			}
			if a.a[1] == b {
				return a.a[0]
			}
			if a.a[1].isConst() {
				return c.Add(c.Sub(a.a[0], b), a.a[1])
			}
		}
		if b.op == OAdd && b.a[1].isConst() {
			return c.Add(c.Sub(a, b.a[0]), c.Const(a.w, -b.a[1].v))
		}
		if b.op == OAdd && (b.a[0] == a || b.a[1] == a) {
			o := b.a[0]
			if o == a {
				o = b.a[1]
			}
			return c.Neg(o)
		}
	}
	return c.mk(OSub, a.w, 0, a, b)
}

func (c *TC) Neg(a *Term) *Term {
	if a.isConst() && a.w <= 64 {
		return c.Const(a.w, -a.v)
	}
	if a.op == ONeg {
		return a.a[0]
	}
	return c.mk(ONeg, a.w, 0, a)
}

func isPow2(v uint64) bool { return v != 0 && v&(v-1) == 0 }

func (c *TC) Mul(a, b *Term) *Term {
	if a.isConst() && b.isConst() && a.w <= 64 {
		return c.Const(a.w, a.v*b.v)
	}
	if a.isConst() {
		a, b = b, a
	}
	if b.isConst() && a.w <= 64 {
		if b.v == 0 {
			return b
		}
		if b.v == 1 {
			return a
		}
		if isPow2(b.v) {
			return c.Shl(a, c.Const(a.w, uint64(bits.TrailingZeros64(b.v))))
		}
		if a.op == OAdd && a.a[1].isConst() {
			return c.Add(c.Mul(a.a[0], b), c.Const(a.w, a.a[1].v*b.v))
		}
	}
	if !b.isConst() && a.id > b.id {
		a, b = b, a
	}
	return c.mk(OMul, a.w, 0, a, b)
}

// umax is an inclusive upper bound of a term of at most 64 bits.
// umin is a lower bound of the unsigned value of t (at most 64 bits wide).
func (c *TC) umin(t *Term, d int) uint64 {
	if d > 6 {
		return 0
	}
	switch t.op {
	case OConst:
		return t.v
	case OB64:
		return '+'
	case OHex:
		return '0'
	case OConcat:
		if len(t.a) == 2 && c.isZero(t.a[0]) {
			return c.umin(t.a[1], d+1)
		}
	case OAdd:
		if m := mask(t.w); t.a[0].isConst() || t.a[1].isConst() {
			if s, o := bits.Add64(c.umax(t.a[0], 0), c.umax(t.a[1], 0), 0); o == 0 && s <= m {
				return c.umin(t.a[0], d+1) + c.umin(t.a[1], d+1)
			}
		}
	case OIte:
		return min(c.umin(t.a[1], d+1), c.umin(t.a[2], d+1))
	}
	return 0
}

func (c *TC) umax(t *Term, d int) uint64 {
	m := mask(t.w)
	if d > 12 {
		return m
	}
	switch t.op {
	case OConst:
		return t.v
	case OVar:
		if t.ub > 0 {
			return t.ub
		}
	case OConcat:
		if len(t.a) == 2 && c.isZero(t.a[0]) {
			return c.umax(t.a[1], d+1)
		}
	case OAdd:
		x, y := c.umax(t.a[0], d+1), c.umax(t.a[1], d+1)
		if s, o := bits.Add64(x, y, 0); o == 0 && s <= m {
			return s
		}
	case OMul:
		x, y := c.umax(t.a[0], d+1), c.umax(t.a[1], d+1)
		if h, l := bits.Mul64(x, y); h == 0 && l <= m {
			return l
		}
	case OB64:
		return 'z'
	case OHex:
		return 'f'
	case OUDiv:
		if t.a[1].isConst() && t.a[1].v > 0 {
			return c.umax(t.a[0], d+1) / t.a[1].v
		}
	case OURem:
		if t.a[1].isConst() && t.a[1].v > 0 {
			return min(t.a[1].v-1, c.umax(t.a[0], d+1))
		}
	case OIte:
		return max(c.umax(t.a[1], d+1), c.umax(t.a[2], d+1))
	case OExtract:
		if t.v == 0 && t.a[0].w <= 64 {
			return min(m, c.umax(t.a[0], d+1))
		}
	}
	if s := c.sigBits(t); s < 64 {
		return min(m, mask(s))
	}
	return m
}

// divides splits a = x + y (without overflow) with x a multiple of k: x/k, y.
func (c *TC) divides(a *Term, k uint64) (*Term, *Term, bool) {
	mult := func(t *Term) (*Term, bool) {
		if t.isConst() && t.v%k == 0 {
			return c.Const(t.w, t.v/k), true
		}
		if t.op == OMul && t.a[1].isConst() && t.a[1].v%k == 0 {
			x, y := c.umax(t.a[0], 0), t.a[1].v
			if h, l := bits.Mul64(x, y); h == 0 && l <= mask(t.w) {
				return c.Mul(t.a[0], c.Const(t.w, y/k)), true
			}
		}
		return nil, false
	}
	if q, ok := mult(a); ok {
		return q, c.Const(a.w, 0), true
	}
	if a.op == OAdd {
		x, y := c.umax(a.a[0], 0), c.umax(a.a[1], 0)
		if s, o := bits.Add64(x, y, 0); o == 0 && s <= mask(a.w) {
			if q, ok := mult(a.a[0]); ok {
				return q, a.a[1], true
			}
			if q, ok := mult(a.a[1]); ok {
				return q, a.a[0], true
			}
		}
	}
	return nil, nil, false
}

func (c *TC) UDiv(a, b *Term) *Term {
	if b.isConst() && a.w <= 64 && b.v > 1 && !a.isConst() && !isPow2(b.v) {
		if c.umax(a, 0) < b.v {
			return c.Const(a.w, 0)
		}
		if q, r, ok := c.divides(a, b.v); ok {
			return c.Add(q, c.UDiv(r, b))
		}
		if s := max(c.sigBits(a), int32(bits.Len64(b.v))); s < a.w {
			return c.ZExt(c.UDiv(c.Extract(a, s-1, 0), c.Const(s, b.v)), a.w)
		}
	}
	if a.isConst() && b.isConst() && a.w <= 64 && b.v != 0 {
		return c.Const(a.w, a.v/b.v)
	}
	if b.isConst() && a.w <= 64 && b.v != 0 {
		if isPow2(b.v) {
			return c.LShr(a, c.Const(a.w, uint64(bits.TrailingZeros64(b.v))))
		}
		// (x / k1) / k2 = x / (k1*k2) when the product does not overflow
		if a.op == OUDiv && a.a[1].isConst() && a.a[1].v != 0 {
			if hi, lo := bits.Mul64(a.a[1].v, b.v); hi == 0 && lo <= mask(a.w) {
				return c.UDiv(a.a[0], c.Const(a.w, lo))
			}
		}
		if c.sigBits(a) < int32(bits.Len64(b.v)) {
			return c.Const(a.w, 0)
		}
	}
	return c.mk(OUDiv, a.w, 0, a, b)
}

func (c *TC) URem(a, b *Term) *Term {
	if b.isConst() && a.w <= 64 && b.v > 1 && !a.isConst() && !isPow2(b.v) {
		if c.umax(a, 0) < b.v {
			return a
		}
		if _, r, ok := c.divides(a, b.v); ok {
			return c.URem(r, b)
		}
		if s := max(c.sigBits(a), int32(bits.Len64(b.v))); s < a.w {
			return c.ZExt(c.URem(c.Extract(a, s-1, 0), c.Const(s, b.v)), a.w)
		}
	}
	if a.isConst() && b.isConst() && a.w <= 64 && b.v != 0 {
		return c.Const(a.w, a.v%b.v)
	}
	if b.isConst() && a.w <= 64 && b.v != 0 {
		if isPow2(b.v) {
			return c.And(a, c.Const(a.w, b.v-1))
		}
		if c.sigBits(a) < int32(bits.Len64(b.v)) {
			return a
		}
	}
	return c.mk(OURem, a.w, 0, a, b)
}

func (c *TC) SDiv(a, b *Term) *Term {
	if a.isConst() && b.isConst() && a.w <= 64 && b.v != 0 {
		x, y := signed(a), signed(b)
		if y == -1 {
			return c.Neg(a)
		}
		return c.Const(a.w, uint64(x/y))
	}
	if c.nonNeg(a) && c.nonNeg(b) {
		return c.UDiv(a, b)
	}
	return c.mk(OSDiv, a.w, 0, a, b)
}

func (c *TC) SRem(a, b *Term) *Term {
	if a.isConst() && b.isConst() && a.w <= 64 && b.v != 0 {
		x, y := signed(a), signed(b)
		if y == -1 {
			return c.Const(a.w, 0)
		}
		return c.Const(a.w, uint64(x%y))
	}
	if c.nonNeg(a) && c.nonNeg(b) {
		return c.URem(a, b)
	}
	return c.mk(OSRem, a.w, 0, a, b)
}

// segs returns the concatenation segments of t, most significant first.
func segs(t *Term) []*Term {
	if t.op == OConcat {
		return t.a
	}
	return []*Term{t}
}

// piecewise aligns the segments of a and b and combines them with f.
func (c *TC) piecewise(a, b *Term, f func(x, y *Term) *Term) *Term {
	sa, sb := segs(a), segs(b)
	var out []*Term
	i, j := 0, 0
	ra, rb := sa[0].w, sb[0].w // remaining (low) bits of the current segments
	for {
		n := min(ra, rb)
		x := c.Extract(sa[i], ra-1, ra-n)
		y := c.Extract(sb[j], rb-1, rb-n)
		out = append(out, f(x, y))
		ra -= n
		rb -= n
		if ra == 0 {
			i++
			if i < len(sa) {
				ra = sa[i].w
			}
		}
		if rb == 0 {
			j++
			if j < len(sb) {
				rb = sb[j].w
			}
		}
		if i >= len(sa) || j >= len(sb) {
			break
		}
	}
	return c.Concat(out...)
}

func runs(v uint64, w int32) int {
	n := 1
	for i := int32(1); i < w; i++ {
		if (v>>uint(i))&1 != (v>>uint(i-1))&1 {
			n++
		}
	}
	return n
}

// splitConst cuts a constant into maximal runs of equal bits (as a fake concat segment list).
func (c *TC) constRuns(t *Term) []*Term {
	var out []*Term
	w := t.w
	i := w
	for i > 0 {
		bit := (t.v >> uint(i-1)) & 1
		j := i
		for j > 0 && (t.v>>uint(j-1))&1 == bit {
			j--
		}
		n := i - j
		var v uint64
		if bit == 1 {
			v = mask(n)
		}
		out = append(out, c.Const(n, v))
		i = j
	}
	return out
}

func (c *TC) allOnes(t *Term) bool {
	if !t.isConst() {
		return false
	}
	if t.w <= 64 {
		return t.v == mask(t.w)
	}
	return t.big.BitLen() == int(t.w) && new(big.Int).Add(t.big, big.NewInt(1)).BitLen() == int(t.w)+1
}

func (c *TC) isZero(t *Term) bool { return t.isConst() && t.bigVal().Sign() == 0 }

func (c *TC) bitop(op Op, a, b *Term) *Term {
	if a.isConst() && b.isConst() {
		x, y := a.bigVal(), b.bigVal()
		r := new(big.Int)
		switch op {
		case OAnd:
			r.And(x, y)
		case OOr:
			r.Or(x, y)
		case OXor:
			r.Xor(x, y)
		}
		return c.BigConst(a.w, r)
	}
	if a.isConst() {
		a, b = b, a
	}
	if a == b {
		if op == OXor {
			return c.Const(a.w, 0)
		}
		return a
	}
	if b.isConst() {
		z, o := c.isZero(b), c.allOnes(b)
		switch {
		case op == OAnd && z:
			return b
		case op == OAnd && o:
			return a
		case op == OOr && z, op == OXor && z:
			return a
		case op == OOr && o:
			return b
		case op == OXor && o:
			return c.Not(a)
		}
		if a.op == OIte && a.a[1].isConst() && a.a[2].isConst() {
			return c.Ite(a.a[0], c.bitop(op, a.a[1], b), c.bitop(op, a.a[2], b))
		}
		if b.w <= 64 && (op == OAnd || op == OOr) && runs(b.v, b.w) <= 9 {
			// process bit runs of the mask
			pos := b.w
			var out []*Term
			for _, s := range c.constRuns(b) {
				x := c.Extract(a, pos-1, pos-s.w)
				pos -= s.w
				ones := s.v != 0
				if (op == OAnd) == ones {
					out = append(out, x)
				} else {
					out = append(out, s)
				}
			}
			return c.Concat(out...)
		}
	}
	if a.op == OConcat || b.op == OConcat {
		// only worthwhile if a constant segment meets something
		useful := false
		for _, t := range []*Term{a, b} {
			if t.op == OConcat {
				for _, s := range t.a {
					if s.isConst() {
						useful = true
					}
				}
			}
		}
		if useful {
			return c.piecewise(a, b, func(x, y *Term) *Term { return c.bitop(op, x, y) })
		}
	}
	if !b.isConst() && a.id > b.id {
		a, b = b, a
	}
	return c.mk(op, a.w, 0, a, b)
}

func (c *TC) And(a, b *Term) *Term { return c.bitop(OAnd, a, b) }
func (c *TC) Or(a, b *Term) *Term  { return c.bitop(OOr, a, b) }
func (c *TC) Xor(a, b *Term) *Term { return c.bitop(OXor, a, b) }

func (c *TC) Not(a *Term) *Term {
	if a.isConst() {
		if a.w <= 64 {
			return c.Const(a.w, ^a.v)
		}
		m := new(big.Int).Lsh(big.NewInt(1), uint(a.w))
		m.Sub(m, big.NewInt(1))
		return c.BigConst(a.w, m.Xor(m, a.big))
	}
	if a.op == ONot {
		return a.a[0]
	}
	return c.mk(ONot, a.w, 0, a)
}

// Shl, LShr, AShr: b has the same width as a; amounts >= width follow SMT-LIB (= Go) semantics.
func (c *TC) Shl(a, b *Term) *Term {
	if b.isConst() {
		if b.bigVal().Cmp(big.NewInt(int64(a.w))) >= 0 {
			return c.Const(a.w, 0)
		}
		k := int32(b.bigVal().Int64())
		if k == 0 {
			return a
		}
		return c.Concat(c.Extract(a, a.w-1-k, 0), c.Const(k, 0))
	}
	return c.mk(OShl, a.w, 0, a, b)
}

func (c *TC) LShr(a, b *Term) *Term {
	if b.isConst() {
		if b.bigVal().Cmp(big.NewInt(int64(a.w))) >= 0 {
			return c.Const(a.w, 0)
		}
		k := int32(b.bigVal().Int64())
		if k == 0 {
			return a
		}
		return c.Concat(c.Const(k, 0), c.Extract(a, a.w-1, k))
	}
	return c.mk(OLShr, a.w, 0, a, b)
}

func (c *TC) AShr(a, b *Term) *Term {
	if c.nonNeg(a) {
		return c.LShr(a, b)
	}
	if a.isConst() && b.isConst() && a.w <= 64 {
		k := min(b.v, 63)
		return c.Const(a.w, uint64(signed(a)>>k))
	}
	if c.isZero(b) {
		return a
	}
	if b.isConst() && a.w <= 64 && b.v < uint64(a.w) {
		k := int32(b.v)
		return c.SExt(c.Extract(a, a.w-1, k), a.w)
	}
	return c.mk(OAShr, a.w, 0, a, b)
}

func (c *TC) ZExt(a *Term, w int32) *Term {
	if w == a.w {
		return a
	}
	if w < a.w {
		return c.Extract(a, w-1, 0)
	}
	return c.Concat(c.Const(w-a.w, 0), a)
}

func (c *TC) SExt(a *Term, w int32) *Term {
	if w == a.w {
		return a
	}
	if w < a.w {
		return c.Extract(a, w-1, 0)
	}
	if c.nonNeg(a) {
		return c.ZExt(a, w)
	}
	if a.isConst() && w <= 64 {
		return c.Const(w, uint64(signed(a)))
	}
	if a.op == OSExt {
		return c.SExt(a.a[0], w)
	}
	return c.mk(OSExt, w, 0, a)
}

func (c *TC) Extract(a *Term, hi, lo int32) *Term {
	w := hi - lo + 1
	if lo < 0 || hi >= a.w || w <= 0 {
		panic(fmt.Sprintf("bad extract %d..%d of width %d", hi, lo, a.w))
	}
	if w == a.w {
		return a
	}
	switch a.op {
	case OConst:
		if a.w <= 64 {
			return c.Const(w, a.v>>uint(lo))
		}
		b := new(big.Int).Rsh(a.big, uint(lo))
		m := new(big.Int).Lsh(big.NewInt(1), uint(w))
		m.Sub(m, big.NewInt(1))
		return c.BigConst(w, b.And(b, m))
	case OExtract:
		return c.Extract(a.a[0], hi+int32(a.v), lo+int32(a.v))
	case OConcat:
		// segments are most significant first
		top := a.w
		var out []*Term
		for _, s := range a.a {
			shi, slo := top-1, top-s.w
			top = slo
			h, l := min(hi, shi), max(lo, slo)
			if h >= l {
				out = append(out, c.Extract(s, h-slo, l-slo))
			}
			if slo <= lo {
				break
			}
		}
		return c.Concat(out...)
	case OIte:
		if (a.a[1].isConst() || a.a[1].op == OConcat) && (a.a[2].isConst() || a.a[2].op == OConcat) || (a.a[1].isConst() || a.a[2].isConst()) {
			return c.Ite(a.a[0], c.Extract(a.a[1], hi, lo), c.Extract(a.a[2], hi, lo))
		}
	case OAnd, OOr, OXor:
		return c.bitop(a.op, c.Extract(a.a[0], hi, lo), c.Extract(a.a[1], hi, lo))
	case ONot:
		return c.Not(c.Extract(a.a[0], hi, lo))
	case OAdd:
		if lo == 0 {
			return c.Add(c.Extract(a.a[0], hi, 0), c.Extract(a.a[1], hi, 0))
		}
	case OSub:
		if lo == 0 {
			return c.Sub(c.Extract(a.a[0], hi, 0), c.Extract(a.a[1], hi, 0))
		}
	case OMul:
		if lo == 0 {
			return c.Mul(c.Extract(a.a[0], hi, 0), c.Extract(a.a[1], hi, 0))
		}
	case OSExt:
		in := a.a[0]
		if hi < in.w {
			return c.Extract(in, hi, lo)
		}
		if lo < in.w {
			return c.SExt(c.Extract(in, in.w-1, lo), w)
		}
	}
	// known-zero high part
	if sb := c.sigBits(a); lo >= sb {
		return c.Const(w, 0)
	}
	return c.mk(OExtract, w, uint64(lo), a)
}

// mergeConsts merges runs of adjacent constants.
func (c *TC) mergeConsts(flat []*Term) []*Term {
	out := flat[:0]
	for i := 0; i < len(flat); {
		j := i
		var w int32
		for j < len(flat) && flat[j].isConst() {
			w += flat[j].w
			j++
		}
		if j-i < 2 {
			out = append(out, flat[i])
			i++
			continue
		}
		// bits are collected from the least significant end
		words := make([]big.Word, (int(w)+63)/64+1)
		pos := uint(0)
		for k := j - 1; k >= i; k-- {
			t := flat[k]
			if t.w <= 64 {
				words[pos/64] |= big.Word(t.v) << (pos % 64)
				if pos%64 != 0 {
					words[pos/64+1] |= big.Word(t.v) >> (64 - pos%64)
				}
			} else {
				for q, x := range t.bigVal().Bits() {
					p := pos + 64*uint(q)
					words[p/64] |= x << (p % 64)
					if p%64 != 0 && x>>(64-p%64) != 0 {
						words[p/64+1] |= x >> (64 - p%64)
					}
				}
			}
			pos += uint(t.w)
		}
		if w <= 64 {
			out = append(out, c.Const(w, uint64(words[0])))
		} else {
			out = append(out, c.BigConst(w, new(big.Int).SetBits(words)))
		}
		i = j
	}
	return out
}

// Concat concatenates, first argument most significant.
func (c *TC) Concat(args ...*Term) *Term {
	flat := make([]*Term, 0, len(args))
	var push func(t *Term)
	push = func(t *Term) {
		if t.op == OConcat {
			for _, s := range t.a {
				push(s)
			}
			return
		}
		if n := len(flat); n > 0 {
			l := flat[n-1]
			if l.isConst() && t.isConst() && l.w+t.w <= 64 {
				flat[n-1] = c.Const(l.w+t.w, l.v<<uint(t.w)|t.v)
				return
			}
			if l.op == OExtract && t.op == OExtract && l.a[0] == t.a[0] && int32(l.v) == int32(t.v)+t.w {
				flat[n-1] = c.Extract(l.a[0], int32(l.v)+l.w-1, int32(t.v))
				return
			}
			// extract adjacent to the whole? (x[hi:k] ++ x[k-1:0]) handled above
			if l.op == OIte && t.op == OIte && l.a[0] == t.a[0] {
				flat[n-1] = c.Ite(l.a[0], c.Concat(l.a[1], t.a[1]), c.Concat(l.a[2], t.a[2]))
				return
			}
		}
		flat = append(flat, t)
	}
	for _, t := range args {
		push(t)
	}
	flat = c.mergeConsts(flat)
	if len(flat) == 1 {
		return flat[0]
	}
	var w int32
	for _, t := range flat {
		w += t.w
	}
	return c.mk(OConcat, w, 0, flat...)
}

func (c *TC) Ite(cond, a, b *Term) *Term {
	if cond.isTrue() {
		return a
	}
	if cond.isFalse() {
		return b
	}
	if a == b {
		return a
	}
	if cond.op == OBNot {
		return c.Ite(cond.a[0], b, a)
	}
	if a.w == 0 {
		switch {
		case a.isTrue():
			return c.BOr(cond, b)
		case a.isFalse():
			return c.BAnd(c.BNot(cond), b)
		case b.isTrue():
			return c.BOr(c.BNot(cond), a)
		case b.isFalse():
			return c.BAnd(cond, a)
		}
	}
	if a.op == OIte && a.a[0] == cond {
		a = a.a[1]
	}
	if b.op == OIte && b.a[0] == cond {
		b = b.a[2]
	}
	if a == b {
		return a
	}
	// ite(c1, x, ite(c2, x, y)) = ite(c1|c2, x, y)
	if b.op == OIte && b.a[1] == a {
		return c.Ite(c.BOr(cond, b.a[0]), a, b.a[2])
	}
	return c.mk(OIte, a.w, 0, cond, a, b)
}

const hexAlpha = "0123456789abcdef"
const b64Alpha = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/"

// HexC is the lowercase hexadecimal digit of a 4-bit value.
func (c *TC) HexC(a *Term) *Term {
	if a.isConst() {
		return c.Const(8, uint64(hexAlpha[a.v]))
	}
	return c.mk(OHex, 8, 0, a)
}

// B64C is the standard base64 character of a 6-bit value.
func (c *TC) B64C(a *Term) *Term {
	if a.isConst() {
		return c.Const(8, uint64(b64Alpha[a.v]))
	}
	return c.mk(OB64, 8, 0, a)
}

func digitAlpha(op Op) string {
	if op == OB64 {
		return b64Alpha
	}
	return hexAlpha
}

func (c *TC) mkDigitConst(digit *Term, v int) *Term { return c.Const(digit.a[0].w, uint64(v)) }

func injective(name string) bool { return strings.HasPrefix(name, "H!") }

// eqInjective handles equalities between collision-free function applications (or equal,
// at least 100 bit wide, slices of them). ok=false if the rule does not apply.
func (c *TC) eqInjective(a, b *Term) (*Term, bool) {
	x, y := a, b
	if a.op == OExtract && b.op == OExtract && a.v == b.v && a.w == b.w && a.w >= 100 {
		x, y = a.a[0], b.a[0]
	}
	if b.isConst() && a.op == OExtract && a.w == 128 && a.a[0].w == 256 && int32(a.v) == 128 {
		if h, ok := c.preOf[b]; ok {
			x, y = a.a[0], h
		}
	} else if a.isConst() && b.op == OExtract && b.w == 128 && b.a[0].w == 256 && int32(b.v) == 128 {
		if h, ok := c.preOf[a]; ok {
			x, y = h, b.a[0]
		}
	}
	if y.isConst() && x.op == OUF && injective(x.name) {
		if h, ok := c.hashOf[y]; ok {
			y = h
		}
	} else if x.isConst() && y.op == OUF && injective(y.name) {
		if h, ok := c.hashOf[x]; ok {
			x = h
		}
	}
	if x.op == OUF && y.op == OUF && x.w == y.w && injective(x.name) && injective(y.name) {
		if hashFamily(x.name) != hashFamily(y.name) || len(x.a) != len(y.a) {
			return c.F, true
		}
		r := c.T
		for i := range x.a {
			if x.a[i].w != y.a[i].w {
				return c.F, true
			}
			r = c.BAnd(r, c.Eq(x.a[i], y.a[i]))
		}
		return r, true
	}
	return nil, false
}

func hashFamily(n string) string {
	if i := strings.IndexByte(n, '@'); i >= 0 {
		return n[:i]
	}
	return n
}

func (c *TC) Eq(a, b *Term) *Term {
	if a == b {
		return c.T
	}
	if a.w != b.w {
		panic(fmt.Sprintf("Eq of widths %d and %d: %s / %s", a.w, b.w, a.String(), b.String()))
	}
	if a.isConst() && b.isConst() {
		return c.F // hash-consed and different
	}
	if a.isConst() {
		a, b = b, a
	}
	if a.w == 0 {
		if b.isTrue() {
			return a
		}
		if b.isFalse() {
			return c.BNot(a)
		}
		if a.op == OBNot && a.a[0] == b || b.op == OBNot && b.a[0] == a {
			return c.F
		}
	} else {
		if r, ok := c.eqInjective(a, b); ok {
			return r
		}
		if a.op == OHex || a.op == OB64 {
			if b.op == a.op {
				return c.Eq(a.a[0], b.a[0])
			}
			if b.isConst() {
				alpha := hexAlpha
				if a.op == OB64 {
					alpha = b64Alpha
				}
				if i := strings.IndexByte(alpha, byte(b.v)); i >= 0 {
					return c.Eq(a.a[0], c.Const(a.a[0].w, uint64(i)))
				}
				return c.F
			}
		}
		if (a.op == OConcat && (b.op == OConcat || b.isConst())) || (b.op == OConcat && a.isConst()) {
			r := []*Term{}
			f := false
			// runs of digit characters are compared as the values they spell, so that
			// wide (collision-free) values behind them stay whole
			var run [2][]*Term
			var runOp Op
			add := func(e *Term) {
				if e.isFalse() {
					f = true
				}
				r = append(r, e)
			}
			flush := func() {
				if len(run[0]) > 0 {
					add(c.Eq(c.Concat(run[0]...), c.Concat(run[1]...)))
					run[0], run[1] = nil, nil
				}
			}
			c.piecewise(a, b, func(x, y *Term) *Term {
				if f {
					return x
				}
				u, v := x, y
				if u.op != OHex && u.op != OB64 {
					u, v = v, u
				}
				if u.op == OHex || u.op == OB64 {
					if v.isConst() {
						if i := strings.IndexByte(digitAlpha(u.op), byte(v.v)); i < 0 {
							add(c.F)
							return x
						} else {
							v = c.mkDigitConst(u, i)
						}
					} else if v.op == u.op {
						v = v.a[0]
					} else {
						v = nil
					}
					if v != nil {
						if runOp != u.op {
							flush()
						}
						runOp = u.op
						if u == x {
							run[0], run[1] = append(run[0], u.a[0]), append(run[1], v)
						} else {
							run[0], run[1] = append(run[0], v), append(run[1], u.a[0])
						}
						return x
					}
				}
				flush()
				add(c.Eq(x, y))
				return x
			})
			if !f {
				flush()
			}
			if f {
				return c.F
			}
			return c.BAndN(r...)
		}
		if b.isConst() && a.w <= 64 {
			if a.op == OAdd && a.a[1].isConst() {
				return c.Eq(a.a[0], c.Const(a.w, b.v-a.a[1].v))
			}
			if s := c.sigBits(a); int32(bits.Len64(b.v)) > s {
				return c.F
			}
			if c.umax(a, 0) < b.v {
				return c.F
			}
			if a.op == OXor && a.a[1].isConst() {
				return c.Eq(a.a[0], c.Const(a.w, b.v^a.a[1].v))
			}
			if a.op == OSExt {
				in := a.a[0]
				sm := c.Const(in.w, b.v)
				if c.SExt(sm, a.w) == b {
					return c.Eq(in, sm)
				}
				return c.F
			}
		}
		if a.op == OIte && b.isConst() {
			if a.a[1].isConst() {
				if a.a[1] == b {
					return c.BOr(a.a[0], c.Eq(a.a[2], b))
				}
				return c.BAnd(c.BNot(a.a[0]), c.Eq(a.a[2], b))
			}
			if a.a[2].isConst() {
				if a.a[2] == b {
					return c.BOr(c.BNot(a.a[0]), c.Eq(a.a[1], b))
				}
				return c.BAnd(a.a[0], c.Eq(a.a[1], b))
			}
		}
		if a.w <= 32 && b.isConst() && (c.umin(a, 0) > b.v || c.umax(a, 0) < b.v) {
			return c.F
		}
		if a.op == OAdd && b.op == OAdd {
			for i := 0; i < 2; i++ {
				for j := 0; j < 2; j++ {
					if a.a[i] == b.a[j] {
						return c.Eq(a.a[1-i], b.a[1-j])
					}
				}
			}
		}
	}
	if !b.isConst() && a.id > b.id {
		a, b = b, a
	}
	return c.mk(OEq, 0, 0, a, b)
}

func (c *TC) Ult(a, b *Term) *Term {
	if a == b {
		return c.F
	}
	if a.w <= 64 {
		if a.isConst() && b.isConst() {
			return c.Bool(a.v < b.v)
		}
		if b.isConst() {
			if b.v == 0 {
				return c.F
			}
			if c.sigBits(a) < int32(bits.Len64(b.v)) || c.umax(a, 0) < b.v {
				return c.T
			}
			if c.umin(a, 0) >= b.v {
				return c.F
			}
			if b.v == 1 {
				return c.Eq(a, c.Const(a.w, 0))
			}
		}
		if a.isConst() {
			if a.v == mask(a.w) {
				return c.F
			}
			if c.sigBits(b) < int32(bits.Len64(a.v)) || c.umax(b, 0) <= a.v {
				return c.F
			}
			if c.umin(b, 0) > a.v {
				return c.T
			}
			if a.v == 0 {
				return c.BNot(c.Eq(b, a))
			}
		}
		// narrow
		if s := max(c.sigBits(a), c.sigBits(b)); s < a.w && s > 0 {
			return c.Ult(c.Extract(a, s-1, 0), c.Extract(b, s-1, 0))
		}
		if a.op == OIte && b.isConst() && a.a[1].isConst() {
			return c.Ite(a.a[0], c.Ult(a.a[1], b), c.Ult(a.a[2], b))
		}
		if b.op == OIte && a.isConst() && b.a[1].isConst() {
			return c.Ite(b.a[0], c.Ult(a, b.a[1]), c.Ult(a, b.a[2]))
		}
	} else if a.isConst() && b.isConst() {
		return c.Bool(a.big.Cmp(b.big) < 0)
	}
	return c.mk(OUlt, 0, 0, a, b)
}

func (c *TC) Ule(a, b *Term) *Term { return c.BNot(c.Ult(b, a)) }

func (c *TC) Slt(a, b *Term) *Term {
	if a == b {
		return c.F
	}
	if a.isConst() && b.isConst() && a.w <= 64 {
		return c.Bool(signed(a) < signed(b))
	}
	if c.nonNeg(a) && c.nonNeg(b) {
		return c.Ult(a, b)
	}
	if b.isConst() && b.w <= 64 && b.v == 0 {
		// sign bit
		return c.Eq(c.Extract(a, a.w-1, a.w-1), c.Const(1, 1))
	}
	if a.op == OIte && b.isConst() && a.a[1].isConst() {
		return c.Ite(a.a[0], c.Slt(a.a[1], b), c.Slt(a.a[2], b))
	}
	if b.op == OIte && a.isConst() && b.a[1].isConst() {
		return c.Ite(b.a[0], c.Slt(a, b.a[1]), c.Slt(a, b.a[2]))
	}
	return c.mk(OSlt, 0, 0, a, b)
}

func (c *TC) Sle(a, b *Term) *Term { return c.BNot(c.Slt(b, a)) }

func (c *TC) BNot(a *Term) *Term {
	if a.isConst() {
		return c.Bool(a.v == 0)
	}
	if a.op == OBNot {
		return a.a[0]
	}
	return c.mk(OBNot, 0, 0, a)
}

func (c *TC) BAnd(a, b *Term) *Term { return c.BAndN(a, b) }
func (c *TC) BOr(a, b *Term) *Term  { return c.BNot(c.BAndN(c.BNot(a), c.BNot(b))) }
func (c *TC) BOrN(ts ...*Term) *Term {
	n := make([]*Term, len(ts))
	for i, t := range ts {
		n[i] = c.BNot(t)
	}
	return c.BNot(c.BAndN(n...))
}

func (c *TC) BAndN(ts ...*Term) *Term {
	var flat []*Term
	seen := map[uint32]bool{}
	for _, t := range ts {
		var xs []*Term
		if t.op == OBAnd {
			xs = t.a
		} else {
			xs = []*Term{t}
		}
		for _, x := range xs {
			if x.isFalse() {
				return c.F
			}
			if x.isTrue() || seen[x.id] {
				continue
			}
			seen[x.id] = true
			flat = append(flat, x)
		}
	}
	for _, x := range flat {
		if x.op == OBNot && seen[x.a[0].id] {
			return c.F
		}
	}
	switch len(flat) {
	case 0:
		return c.T
	case 1:
		return flat[0]
	}
	sort.Slice(flat, func(i, j int) bool { return flat[i].id < flat[j].id })
	return c.mk(OBAnd, 0, 0, flat...)
}

func (c *TC) BIte(cond, a, b *Term) *Term { return c.Ite(cond, a, b) }

func (t *Term) String() string {
	var f func(t *Term, d int) string
	f = func(t *Term, d int) string {
		switch t.op {
		case OConst:
			if t.w == 0 {
				return fmt.Sprint(t.v == 1)
			}
			return fmt.Sprintf("0x%s:%d", t.bigVal().Text(16), t.w)
		case OVar:
			return t.name
		}
		if d > 6 {
			return "..."
		}
		var s []string
		for i, a := range t.a {
			if i > 8 {
				s = append(s, "...")
				break
			}
			s = append(s, f(a, d+1))
		}
		n := opName[t.op]
		switch t.op {
		case OUF:
			n = t.name
		case OExtract:
			n = fmt.Sprintf("[%d:%d]", int32(t.v)+t.w-1, t.v)
		case OSExt:
			n = "sext"
		}
		return n + "(" + strings.Join(s, ",") + ")"
	}
	return f(t, 0)
}

// Eval evaluates a term under an assignment (used to validate the simplifier and to reuse models).
// It returns nil if an uninterpreted function or an unassigned variable is met (unless uf != nil).
func (c *TC) Eval(t *Term, env map[string]*big.Int, uf func(t *Term, args []*big.Int) *big.Int, memo map[uint32]*big.Int) *big.Int {
	if r, ok := memo[t.id]; ok {
		return r
	}
	var r *big.Int
	m := func(w int32) *big.Int {
		x := new(big.Int).Lsh(big.NewInt(1), uint(w))
		return x.Sub(x, big.NewInt(1))
	}
	args := make([]*big.Int, len(t.a))
	for i, a := range t.a {
		args[i] = c.Eval(a, env, uf, memo)
		if args[i] == nil {
			memo[t.id] = nil
			return nil
		}
	}
	sg := func(x *big.Int, w int32) *big.Int {
		if x.Bit(int(w)-1) == 1 {
			return new(big.Int).Sub(x, new(big.Int).Lsh(big.NewInt(1), uint(w)))
		}
		return x
	}
	b2 := func(b bool) *big.Int {
		if b {
			return big.NewInt(1)
		}
		return big.NewInt(0)
	}
	switch t.op {
	case OConst:
		r = t.bigVal()
	case OVar:
		r = env[t.name]
	case OUF:
		if uf != nil {
			r = uf(t, args)
		}
	case OAdd:
		r = new(big.Int).Add(args[0], args[1])
	case OSub:
		r = new(big.Int).Sub(args[0], args[1])
	case OMul:
		r = new(big.Int).Mul(args[0], args[1])
	case OUDiv:
		if args[1].Sign() == 0 {
			r = m(t.w)
		} else {
			r = new(big.Int).Quo(args[0], args[1])
		}
	case OURem:
		if args[1].Sign() == 0 {
			r = args[0]
		} else {
			r = new(big.Int).Rem(args[0], args[1])
		}
	case OSDiv:
		x, y := sg(args[0], t.w), sg(args[1], t.w)
		if y.Sign() == 0 {
			if x.Sign() < 0 {
				r = big.NewInt(1)
			} else {
				r = m(t.w)
			}
		} else {
			r = new(big.Int).Quo(x, y)
		}
	case OSRem:
		x, y := sg(args[0], t.w), sg(args[1], t.w)
		if y.Sign() == 0 {
			r = x
		} else {
			r = new(big.Int).Rem(x, y)
		}
	case OAnd:
		r = new(big.Int).And(args[0], args[1])
	case OOr:
		r = new(big.Int).Or(args[0], args[1])
	case OXor:
		r = new(big.Int).Xor(args[0], args[1])
	case ONot:
		r = new(big.Int).Xor(args[0], m(t.w))
	case ONeg:
		r = new(big.Int).Neg(args[0])
	case OShl, OLShr, OAShr:
		if args[1].Cmp(big.NewInt(int64(t.w))) >= 0 {
			if t.op == OAShr && args[0].Bit(int(t.w)-1) == 1 {
				r = m(t.w)
			} else {
				r = big.NewInt(0)
			}
		} else {
			k := uint(args[1].Uint64())
			switch t.op {
			case OShl:
				r = new(big.Int).Lsh(args[0], k)
			case OLShr:
				r = new(big.Int).Rsh(args[0], k)
			case OAShr:
				r = new(big.Int).Rsh(sg(args[0], t.w), k)
			}
		}
	case OConcat:
		r = new(big.Int)
		for i, a := range t.a {
			r = new(big.Int).Or(new(big.Int).Lsh(r, uint(a.w)), args[i])
		}
	case OExtract:
		r = new(big.Int).Rsh(args[0], uint(t.v))
	case OSExt:
		r = sg(args[0], t.a[0].w)
	case OIte:
		if args[0].Sign() != 0 {
			r = args[1]
		} else {
			r = args[2]
		}
	case OEq:
		r = b2(args[0].Cmp(args[1]) == 0)
	case OUlt:
		r = b2(args[0].Cmp(args[1]) < 0)
	case OUle:
		r = b2(args[0].Cmp(args[1]) <= 0)
	case OSlt:
		r = b2(sg(args[0], t.a[0].w).Cmp(sg(args[1], t.a[0].w)) < 0)
	case OSle:
		r = b2(sg(args[0], t.a[0].w).Cmp(sg(args[1], t.a[0].w)) <= 0)
	case OBAnd:
		x := true
		for _, a := range args {
			x = x && a.Sign() != 0
		}
		r = b2(x)
	case OBOr:
		x := false
		for _, a := range args {
			x = x || a.Sign() != 0
		}
		r = b2(x)
	case OBNot:
		r = b2(args[0].Sign() == 0)
	case OHex:
		r = big.NewInt(int64(hexAlpha[args[0].Int64()]))
	case OB64:
		r = big.NewInt(int64(b64Alpha[args[0].Int64()]))
	}
	if r != nil && t.w > 0 && (r.Sign() < 0 || r.BitLen() > int(t.w)) {
		r = new(big.Int).And(r, m(t.w))
		if r.Sign() < 0 {
			r.Add(r, new(big.Int).Lsh(big.NewInt(1), uint(t.w)))
		}
	}
	memo[t.id] = r
	return r
}
