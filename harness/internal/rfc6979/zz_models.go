package rfc6979

// Engine models of modular arithmetic, curve points, HMAC and big integers.  Field elements are byte strings of the size
// of the modulus; multiplication, addition, exponentiation and k -> x(k*G) are uninterpreted functions.

import (
	"crypto"
	"crypto/elliptic"
	"errors"
	"hash"
	"math/big"

	"filippo.io/bigmod"
	"filippo.io/nistec"

	"itko.dev/internal/zzsym"
)

// ---- big integers given by their bytes

type zzBig struct {
	p *big.Int
	b []byte
}

var zzBigs []zzBig

// zzBigInt is the big integer with the given (symbolic) bytes.
func zzBigInt(b []byte) *big.Int { return new(big.Int).SetBytes(b) }

//gosym:model itko.dev/internal/rfc6979.zzBigInt
func zzBigIntModel(b []byte) *big.Int {
	x := new(big.Int)
	zzBigs = append(zzBigs, zzBig{x, b})
	return x
}

func zzBigBytes(x *big.Int) []byte {
	for _, e := range zzBigs {
		if e.p == x {
			return append([]byte{}, e.b...)
		}
	}
	var out []byte
	for _, w := range x.Bits() {
		for i := 0; i < 8; i++ {
			out = append([]byte{byte(w >> (8 * i))}, out...)
		}
	}
	return out
}

//gosym:model (*math/big.Int).Bytes
func zzBigIntBytes(x *big.Int) []byte {
	b := zzBigBytes(x)
	for len(b) > 0 && b[0] == 0 {
		b = b[1:]
	}
	return b
}

//gosym:model (*math/big.Int).FillBytes
func zzBigIntFillBytes(x *big.Int, buf []byte) []byte {
	b := zzBigBytes(x)
	for len(b) > len(buf) {
		if b[0] != 0 {
			panic("math/big: buffer too small to fit value")
		}
		b = b[1:]
	}
	for i := range buf {
		buf[i] = 0
	}
	copy(buf[len(buf)-len(b):], b)
	return buf
}

// ---- modular arithmetic

type zzMod struct {
	m    *bigmod.Modulus
	n    []byte
	bits int
}

type zzNat struct {
	x *bigmod.Nat
	v []byte
}

var (
	zzMods []zzMod
	zzNats []*zzNat
)

func zzModOf(m *bigmod.Modulus) zzMod {
	for _, e := range zzMods {
		if e.m == m {
			return e
		}
	}
	panic("unknown modulus")
}

func zzVal(x *bigmod.Nat) *zzNat {
	for _, e := range zzNats {
		if e.x == x {
			return e
		}
	}
	e := &zzNat{x: x}
	zzNats = append(zzNats, e)
	return e
}

//gosym:model filippo.io/bigmod.NewModulusFromBig
func zzNewModulus(n *big.Int) (*bigmod.Modulus, error) {
	b := zzBigIntBytes(n)
	if len(b) == 0 {
		return nil, errors.New("modulus must be >= 0")
	}
	if b[len(b)-1]&1 == 0 {
		return nil, errors.New("modulus must be odd")
	}
	bits := 8 * len(b)
	for t := b[0]; t < 128; t <<= 1 {
		bits--
	}
	m := new(bigmod.Modulus)
	zzMods = append(zzMods, zzMod{m, b, bits})
	return m, nil
}

//gosym:model (*filippo.io/bigmod.Modulus).Size
func zzModSize(m *bigmod.Modulus) int { return len(zzModOf(m).n) }

//gosym:model (*filippo.io/bigmod.Modulus).BitLen
func zzModBitLen(m *bigmod.Modulus) int { return zzModOf(m).bits }

//gosym:model (*filippo.io/bigmod.Modulus).Nat
func zzModNat(m *bigmod.Modulus) *bigmod.Nat {
	x := new(bigmod.Nat)
	zzVal(x).v = zzModOf(m).n
	return x
}

//gosym:model filippo.io/bigmod.NewNat
func zzNewNat() *bigmod.Nat { return new(bigmod.Nat) }

// zzFit brings b to the size of the modulus; it fails if more bytes are needed.
func zzFit(b []byte, size int) ([]byte, bool) {
	b = append([]byte{}, b...)
	for len(b) > size {
		// the real implementation refuses longer inputs whatever their leading bytes once the limbs are full
		if len(b) > (size+7)/8*8 || b[0] != 0 {
			return nil, false
		}
		b = b[1:]
	}
	for len(b) < size {
		b = append([]byte{0}, b...)
	}
	return b, true
}

//gosym:model (*filippo.io/bigmod.Nat).SetBytes
func zzNatSetBytes(x *bigmod.Nat, b []byte, m *bigmod.Modulus) (*bigmod.Nat, error) {
	mm := zzModOf(m)
	v, ok := zzFit(b, len(mm.n))
	if !ok {
		return nil, errors.New("input overflows the modulus size")
	}
	if !zzsym.Less(v, mm.n) {
		return nil, errors.New("input overflows the modulus")
	}
	zzVal(x).v = v
	return x, nil
}

//gosym:model (*filippo.io/bigmod.Nat).SetOverflowingBytes
func zzNatSetOverflowing(x *bigmod.Nat, b []byte, m *bigmod.Modulus) (*bigmod.Nat, error) {
	mm := zzModOf(m)
	v, ok := zzFit(b, len(mm.n))
	if !ok {
		return nil, errors.New("input overflows the modulus size")
	}
	if ex := 8*len(v) - mm.bits; ex > 0 && v[0]>>(8-ex) != 0 {
		return nil, errors.New("input overflows the modulus size")
	}
	zzVal(x).v = zzReduce(v, mm.n)
	return x, nil
}

// zzReduce is v mod n for v < 2n.
func zzReduce(v, n []byte) []byte {
	return zzsym.IteBytes(zzsym.Less(v, n), v, zzsym.SubBE(v, n))
}

//gosym:model (*filippo.io/bigmod.Nat).Bytes
func zzNatBytes(x *bigmod.Nat, m *bigmod.Modulus) []byte {
	v := zzVal(x).v
	for len(v) < len(zzModOf(m).n) {
		v = append([]byte{0}, v...)
	}
	return append([]byte{}, v...)
}

//gosym:model (*filippo.io/bigmod.Nat).IsZero
func zzNatIsZero(x *bigmod.Nat) uint {
	v := zzVal(x).v
	if zzsym.EqBytes(v, make([]byte, len(v))) {
		return 1
	}
	return 0
}

//gosym:model (*filippo.io/bigmod.Nat).Equal
func zzNatEqual(x, y *bigmod.Nat) uint {
	if zzsym.EqBytes(zzVal(x).v, zzVal(y).v) {
		return 1
	}
	return 0
}

//gosym:model (*filippo.io/bigmod.Nat).Mul
func zzNatMul(x, y *bigmod.Nat, m *bigmod.Modulus) *bigmod.Nat {
	zzVal(x).v = zzMulN(zzVal(x).v, zzVal(y).v)
	return x
}

//gosym:model (*filippo.io/bigmod.Nat).Add
func zzNatAdd(x, y *bigmod.Nat, m *bigmod.Modulus) *bigmod.Nat {
	zzVal(x).v = zzAddN(zzVal(x).v, zzVal(y).v)
	return x
}

//gosym:model (*filippo.io/bigmod.Nat).Sub
func zzNatSub(x, y *bigmod.Nat, m *bigmod.Modulus) *bigmod.Nat {
	zzVal(x).v = zzsym.Opaque2("subN", zzVal(x).v, zzVal(y).v, len(zzVal(x).v), false)
	return x
}

//gosym:model (*filippo.io/bigmod.Nat).Exp
func zzNatExp(x, y *bigmod.Nat, e []byte, m *bigmod.Modulus) *bigmod.Nat {
	n := zzModOf(m).n
	two := make([]byte, len(n))
	two[len(two)-1] = 2
	f, ok := zzFit(e, len(n))
	if ok && string(f) == string(zzsym.SubBE(n, two)) {
		zzVal(x).v = zzInvN(zzVal(y).v)
	} else {
		zzVal(x).v = zzsym.Opaque2("expN", zzVal(y).v, append([]byte{1}, e...), len(n), false)
	}
	return x
}

// ---- curve points

type zzPoint struct {
	p any
	k []byte
}

var (
	zzPoints []zzPoint
	zzLastK  []byte

	zzStopAtMult bool
)

const zzStopped = "zz: stopped at the multiplication"

func zzMult(p any, k []byte) {
	zzLastK = append([]byte{}, k...)
	zzPoints = append(zzPoints, zzPoint{p, zzLastK})
	if zzStopAtMult {
		panic(zzStopped)
	}
}

func zzX(p any, size int) ([]byte, error) {
	for i := len(zzPoints) - 1; i >= 0; i-- {
		if zzPoints[i].p == p {
			return zzXCoord(zzPoints[i].k, size), nil
		}
	}
	return nil, errors.New("point at infinity")
}

//gosym:model filippo.io/nistec.NewP256Point
func zzNewP256() *nistec.P256Point { return new(nistec.P256Point) }

//gosym:model filippo.io/nistec.NewP384Point
func zzNewP384() *nistec.P384Point { return new(nistec.P384Point) }

//gosym:model filippo.io/nistec.NewP521Point
func zzNewP521() *nistec.P521Point { return new(nistec.P521Point) }

//gosym:model (*filippo.io/nistec.P256Point).ScalarBaseMult
func zzMult256(p *nistec.P256Point, k []byte) (*nistec.P256Point, error) {
	if len(k) != 32 {
		return nil, errors.New("invalid scalar length")
	}
	zzMult(p, k)
	return p, nil
}

//gosym:model (*filippo.io/nistec.P384Point).ScalarBaseMult
func zzMult384(p *nistec.P384Point, k []byte) (*nistec.P384Point, error) {
	if len(k) != 48 {
		return nil, errors.New("invalid scalar length")
	}
	zzMult(p, k)
	return p, nil
}

//gosym:model (*filippo.io/nistec.P521Point).ScalarBaseMult
func zzMult521(p *nistec.P521Point, k []byte) (*nistec.P521Point, error) {
	if len(k) != 66 {
		return nil, errors.New("invalid scalar length")
	}
	zzMult(p, k)
	return p, nil
}

//gosym:model (*filippo.io/nistec.P256Point).BytesX
func zzX256(p *nistec.P256Point) ([]byte, error) { return zzX(p, 32) }

//gosym:model (*filippo.io/nistec.P384Point).BytesX
func zzX384(p *nistec.P384Point) ([]byte, error) { return zzX(p, 48) }

//gosym:model (*filippo.io/nistec.P521Point).BytesX
func zzX521(p *nistec.P521Point) ([]byte, error) { return zzX(p, 66) }

// ---- HMAC

type zzHash struct{ size int }

func (h zzHash) Write(p []byte) (int, error) { panic("zzHash") }
func (h zzHash) Sum(b []byte) []byte         { panic("zzHash") }
func (h zzHash) Reset()                      {}
func (h zzHash) Size() int                   { return h.size }
func (h zzHash) BlockSize() int              { return 64 }

//gosym:model (crypto.Hash).New
func zzHashNew(h crypto.Hash) hash.Hash { return zzHash{h.Size()} }

type zzHMACState struct {
	size     int
	key, msg []byte
}

func (h *zzHMACState) Write(p []byte) (int, error) {
	h.msg = append(h.msg, p...)
	return len(p), nil
}
func (h *zzHMACState) Sum(b []byte) []byte {
	return append(b, zzsym.Opaque2("hmac", h.key, append([]byte{}, h.msg...), h.size, false)...)
}
func (h *zzHMACState) Reset()         { h.msg = nil }
func (h *zzHMACState) Size() int      { return h.size }
func (h *zzHMACState) BlockSize() int { return 64 }

//gosym:model crypto/hmac.New
func zzHMACNew(h func() hash.Hash, key []byte) hash.Hash {
	return &zzHMACState{size: h().Size(), key: append([]byte{}, key...)}
}

// ---- the same functions for the reference; natively they compute on real integers and points

func zzMulN(a, b []byte) []byte { return zzsym.Opaque2("mulN", a, b, len(a), true) }
func zzAddN(a, b []byte) []byte { return zzsym.Opaque2("addN", a, b, len(a), true) }
func zzInvN(a []byte) []byte    { return zzsym.OpaqueN("invN", a, len(a)) }

func zzXCoord(k []byte, size int) []byte { return zzsym.OpaqueN("xcoord", k, size) }

func zzCurve(i int) elliptic.Curve {
	return []elliptic.Curve{elliptic.P256(), elliptic.P384(), elliptic.P521()}[i]
}
