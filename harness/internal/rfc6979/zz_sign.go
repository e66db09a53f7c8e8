package rfc6979

import (
	"crypto"
	"crypto/ecdsa"
	"crypto/hmac"
	"crypto/sha256"
	"crypto/sha512"
	"hash"
	"math/big"

	"itko.dev/internal/zzsym"
)

var zzOrders = []string{
	"ffffffff00000000ffffffffffffffffbce6faada7179e84f3b9cac2fc632551",
	"ffffffffffffffffffffffffffffffffffffffffffffffffc7634d81f4372ddf581a0db248b0a77aecec196accc52973",
	"01fffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffa51868783bf2f966b7fcc0148f709a5d03bb5c9b8899c47aebb6fb71e91386409",
}

func zzUnhex(s string) []byte {
	var b []byte
	for i := 0; i+1 < len(s); i += 2 {
		v := byte(0)
		for _, c := range []byte(s[i : i+2]) {
			if c >= 'a' {
				v = v<<4 | (c - 'a' + 10)
			} else {
				v = v<<4 | (c - '0')
			}
		}
		b = append(b, v)
	}
	return b
}

// zzBits2int is RFC 6979 2.3.2 for a bit length q: the left-most q bits as an integer, in size bytes.
func zzBits2int(b []byte, q, size int) []byte {
	out := make([]byte, size)
	if 8*len(b) <= q {
		copy(out[size-len(b):], b)
		return out
	}
	b = b[:size]
	sh := uint(8*size - q)
	for i := range out {
		v := uint(b[i])
		if i > 0 {
			v |= uint(b[i-1]) << 8
		}
		out[i] = byte(v >> sh)
	}
	return out
}

func zzHMAC(h crypto.Hash, key []byte, msg ...[]byte) []byte {
	m := hmac.New(h.New, key)
	for _, p := range msg {
		m.Write(p)
	}
	return m.Sum(nil)
}

// zzNonce is RFC 6979 3.2; it gives up after max rejected candidates.
func zzNonce(curve int, d, e []byte, h crypto.Hash, max int) []byte {
	n := zzUnhex(zzOrders[curve])
	size := len(n)
	q := []int{256, 384, 521}[curve]
	v := make([]byte, h.Size())
	k := make([]byte, h.Size())
	for i := range v {
		v[i] = 1
	}
	k = zzHMAC(h, k, v, []byte{0}, d, e)
	v = zzHMAC(h, k, v)
	k = zzHMAC(h, k, v, []byte{1}, d, e)
	v = zzHMAC(h, k, v)
	for i := 0; ; i++ {
		var t []byte
		for 8*len(t) < q {
			v = zzHMAC(h, k, v)
			t = append(t, v...)
		}
		c := zzBits2int(t, q, size)
		if zzsym.All(zzsym.Less(c, n), zzsym.Not(zzsym.EqBytes(c, make([]byte, size)))) {
			if i > 0 {
				zzsym.Reach("~candidate rejected")
			}
			return c
		}
		if i == max && zzsym.Symbolic() {
			zzsym.Stop()
		}
		k = zzHMAC(h, k, v, []byte{0})
		v = zzHMAC(h, k, v)
	}
}

// zzRefE is the integer made from the digest, reduced.
func zzRefE(curve int, digest []byte) []byte {
	n := zzUnhex(zzOrders[curve])
	return zzReduce(zzBits2int(digest, []int{256, 384, 521}[curve], len(n)), n)
}

func zzDigestLen(i int) int { return []int{32, 48, 64, 20, 0, 1, 65, 66, 67, 80}[i] }

// zzKeyAndDigest makes an arbitrary key and digest.
func zzKeyAndDigest(curve, digestLen int) (*ecdsa.PrivateKey, []byte, []byte) {
	n := zzUnhex(zzOrders[curve])
	zz := zzsym.Choice("dzeros", zzsym.Param("dzeros", 2))
	d := append(make([]byte, zz), zzsym.Bytes("d", len(n)-zz)...)
	if zz == 0 && curve == 2 {
		zzsym.Assume(d[0] == 1)
	} else {
		zzsym.Assume(d[zz] != 0)
	}
	zzsym.Assume(zzsym.Less(d, n))
	key := &ecdsa.PrivateKey{D: zzBigInt(d)}
	key.Curve = zzCurve(curve)
	return key, d, zzsym.Bytes("digest", digestLen)
}

// ---- native reference

func zzOrderInt(curve int) *big.Int { return new(big.Int).SetBytes(zzUnhex(zzOrders[curve])) }

// zzReadInt reads a DER INTEGER leniently.
func zzReadDER(sig []byte) (r, s *big.Int, ok bool) {
	rd := func(b []byte) (*big.Int, []byte, bool) {
		if len(b) < 2 || b[0] != 2 || int(b[1]) > len(b)-2 {
			return nil, nil, false
		}
		return new(big.Int).SetBytes(b[2 : 2+int(b[1])]), b[2+int(b[1]):], true
	}
	if len(sig) < 3 || sig[0] != 0x30 {
		return
	}
	b := sig[2:]
	if sig[1] == 0x81 {
		b = sig[3:]
	}
	if r, b, ok = rd(b); !ok {
		return
	}
	s, _, ok = rd(b)
	return
}

func zzNativeX(curve int, k []byte) *big.Int {
	x, _ := zzCurve(curve).ScalarBaseMult(k)
	return x.Mod(x, zzOrderInt(curve))
}

// zzToy is a hash whose results often look like zero or scalars at or above the group order, so that candidates get rejected.
type zzToy struct {
	hash.Hash
	buf []byte
}

func (t *zzToy) Write(p []byte) (int, error) { t.buf = append(t.buf, p...); return len(p), nil }
func (t *zzToy) Reset()                      { t.buf = nil }
func (t *zzToy) Sum(b []byte) []byte {
	var out []byte
	if t.Hash.Size() == 32 {
		h := sha256.Sum256(t.buf)
		out = h[:]
	} else {
		h := sha512.Sum512(t.buf)
		out = h[:t.Hash.Size()]
	}
	if out[31]&1 == 1 {
		for i := 0; i < 28; i++ {
			out[i] = 0xff
		}
	}
	if out[31]&3 == 2 {
		out[0] &= 0x0f
	}
	if out[31]&15 == 4 {
		clear(out) // no valid scalar either
	}
	return append(b, out...)
}

func zzToyHash(h crypto.Hash) {
	crypto.RegisterHash(h, func() hash.Hash {
		if h == crypto.SHA256 {
			return &zzToy{Hash: sha256.New()}
		}
		if h == crypto.SHA384 {
			return &zzToy{Hash: sha512.New384()}
		}
		return &zzToy{Hash: sha512.New()}
	})
}

// ---- C25

// zzCombo chooses curve and hash.
func zzCombo() (int, crypto.Hash) {
	c := [][2]int{{0, 0}, {2, 0}, {1, 1}, {2, 2}, {0, 2}, {1, 0}, {0, 1}, {1, 2}, {2, 1}}[zzsym.Choice("combo", zzsym.Param("combos", 4))]
	return c[0], []crypto.Hash{crypto.SHA256, crypto.SHA384, crypto.SHA512}[c[1]]
}

// VerifNonce: the scalar multiplied with the base point is the RFC 6979 nonce.
func VerifNonce() {
	zzsym.RealSign()
	curve, h := zzCombo()
	key, d, digest := zzKeyAndDigest(curve, zzDigestLen(zzsym.Choice("digestlen", zzsym.Param("digestlens", 4))))
	if !zzsym.Symbolic() {
		zzNativeNonce(curve, key, d, digest, h)
		zzToyHash(h)
		for i := 0; i < 40; i++ {
			x := sha512.Sum512(append(digest, byte(i)))
			zzNativeNonce(curve, key, d, append(append([]byte{}, digest...), x[:]...)[:len(digest)+i%2*32], h)
		}
		return
	}
	want := zzNonce(curve, d, zzRefE(curve, digest), h, zzsym.Param("rejections", 1))
	before := append([]byte{}, digest...)
	for i := 0; i < zzsym.Param("times", 1); i++ {
		zzLastK = nil
		zzUpToMult(func() { Sign(key, digest, h) })
		zzsym.Reach("~nonce")
		zzsym.Assert(zzLastK != nil, "C25: signing did not use a nonce")
		zzsym.Assert(zzsym.EqBytes(zzLastK, want), "C25: the nonce is not the RFC 6979 nonce of the key and digest")
		zzsym.Assert(zzsym.EqBytes(before, digest), "C25: signing changed the digest")
	}
}

// zzUpToMult runs f until the base point is multiplied.
func zzUpToMult(f func()) {
	defer func() {
		zzStopAtMult = false
		if r := recover(); r != nil && r != any(zzStopped) {
			panic(r)
		}
	}()
	zzStopAtMult = true
	f()
}

func zzNativeNonce(curve int, key *ecdsa.PrivateKey, d, digest []byte, h crypto.Hash) {
	sig, err := Sign(key, digest, h)
	zzsym.Assert(err == nil, "C25: signing fails (it did not use a nonce between 1 and N-1)")
	r, _, ok := zzReadDER(sig)
	if !ok {
		return
	}
	k := zzNonce(curve, d, zzRefE(curve, digest), h, 1000)
	zzsym.Assert(r.Cmp(zzNativeX(curve, k)) == 0, "C25: the nonce is not the RFC 6979 nonce of the key and digest")
	again, err := Sign(key, digest, h)
	zzsym.Assert(err == nil && string(again) == string(sig), "C25: signing the same digest again uses another nonce")
}

// ---- C26

func zzRefInt(b []byte) []byte {
	for len(b) > 0 && b[0] == 0 {
		b = b[1:]
	}
	if b[0] >= 0x80 {
		b = append([]byte{0}, b...)
	}
	return append([]byte{2, byte(len(b))}, b...)
}

// zzRefDER is the DER encoding of SEQUENCE { r INTEGER, s INTEGER }.
func zzRefDER(r, s []byte) []byte {
	body := append(zzRefInt(r), zzRefInt(s)...)
	if len(body) >= 128 {
		return append([]byte{0x30, 0x81, byte(len(body))}, body...)
	}
	return append([]byte{0x30, byte(len(body))}, body...)
}

func zzZero(b []byte) bool { return zzsym.EqBytes(b, make([]byte, len(b))) }

// zzShape restricts the number of leading zero bytes that are told apart.
func zzShape(b []byte, max int) {
	c := zzsym.Choice("shape", max+2)
	if c == max+1 {
		// zero
		zzsym.Assume(zzZero(b))
		return
	}
	for i := 0; i < c; i++ {
		zzsym.Assume(b[i] == 0)
	}
	zzsym.Assume(b[c] != 0)
}

// VerifSignature: r, s and their encoding.
func VerifSignature() {
	zzsym.RealSign()
	curve := zzsym.Choice("curve", zzsym.Param("curves", 3))
	key, d, digest := zzKeyAndDigest(curve, zzDigestLen(zzsym.Choice("digestlen", zzsym.Param("digestlens", 8))))
	h := crypto.SHA256
	if !zzsym.Symbolic() {
		zzNativeSignature(curve, key, d, digest, h)
		for i := 0; i < 1500/(1+6*curve); i++ {
			x := sha512.Sum512(append(digest, byte(i), byte(i>>8)))
			zzNativeSignature(curve, key, d, append(append([]byte{}, x[:]...), digest...)[:len(digest)], h)
		}
		zzNativeZero(curve, key, d, h)
		return
	}
	e := zzRefE(curve, digest)
	zzNonce(curve, d, e, h, 0)
	zzLastK = nil
	zzUpToMult(func() { Sign(key, digest, h) })
	k := zzLastK
	if k == nil {
		zzsym.Fail("C26: no nonce was used")
	}
	n := zzUnhex(zzOrders[curve])
	x := zzXCoord(k, len(n))
	if curve == 2 {
		// x-coordinates have 521 bits
		zzsym.Assume(x[0] <= 1)
	}
	r := zzReduce(x, n)
	s := zzMulN(zzInvN(k), zzAddN(e, zzMulN(r, d)))
	zzShape(r, zzsym.Param("zeros", 1))
	zzShape(s, zzsym.Param("zeros", 1))
	zzLastK = nil
	sig, err := Sign(key, digest, h)
	zzsym.Assert(zzsym.EqBytes(zzLastK, k), "C26: signing the same digest again uses another nonce")
	if zzsym.Any(zzZero(r), zzZero(s)) {
		zzsym.Reach("~zero")
		zzsym.Assert(err != nil, "C26: a signature with a zero scalar was returned")
		return
	}
	zzsym.Reach("~signature")
	zzsym.Assert(err == nil, "C26: signing a digest failed")
	want := zzRefDER(r, s)
	zzsym.Assert(len(sig) == len(want), "C26: a signature is not the minimal DER encoding of r and s")
	zzsym.Assert(zzsym.EqBytes(sig, want), "C26: a signature is not the DER encoding of r = x(kG) mod N and s = (e + r*d)/k mod N")
}

// zzConst is a hash with one result, so that the nonce does not depend on the digest.
type zzConst struct{ hash.Hash }

func (t zzConst) Sum(b []byte) []byte {
	out := make([]byte, t.Size())
	for i := 1; i < len(out); i++ {
		out[i] = byte(i)
	}
	return append(b, out...)
}

// zzNativeZero signs a digest for which s is zero.
func zzNativeZero(curve int, key *ecdsa.PrivateKey, d []byte, h crypto.Hash) {
	crypto.RegisterHash(h, func() hash.Hash { return zzConst{sha256.New()} })
	n := zzOrderInt(curve)
	k := zzNonce(curve, d, make([]byte, (n.BitLen()+7)/8), h, 1000)
	e := new(big.Int).Mul(zzNativeX(curve, k), new(big.Int).SetBytes(d))
	e.Mod(e.Neg(e), n)
	e.Lsh(e, uint((8-n.BitLen()%8)%8))
	_, err := Sign(key, e.FillBytes(make([]byte, (n.BitLen()+7)/8)), h)
	zzsym.Assert(err != nil, "C26: a signature with a zero scalar was returned")
}

func zzNativeSignature(curve int, key *ecdsa.PrivateKey, d, digest []byte, h crypto.Hash) {
	sig, err := Sign(key, digest, h)
	zzsym.Assert(err == nil, "C26: signing a digest failed")
	r, s, ok := zzReadDER(sig)
	n := zzOrderInt(curve)
	zzsym.Assert(ok && r.Sign() > 0 && s.Sign() > 0 && r.Cmp(n) < 0 && s.Cmp(n) < 0, "C26: a signature is not the minimal DER encoding of r and s")
	zzsym.Assert(string(sig) == string(zzRefDER(r.Bytes(), s.Bytes())), "C26: a signature is not the minimal DER encoding of r and s")
	// k = (e + r*d)/s must produce r
	k := new(big.Int).SetBytes(zzBits2int(digest, n.BitLen(), (n.BitLen()+7)/8))
	k.Add(k, new(big.Int).Mul(r, new(big.Int).SetBytes(d)))
	k.Mul(k, new(big.Int).ModInverse(s, n))
	k.Mod(k, n)
	x := zzNativeX(curve, k.FillBytes(make([]byte, (n.BitLen()+7)/8)))
	zzsym.Assert(r.Cmp(x) == 0, "C26: a signature is not the DER encoding of r = x(kG) mod N and s = (e + r*d)/k mod N")
}

// VerifEncode: the encoding of every pair of scalars, with any number of leading zero bytes.
func VerifEncode() {
	size := []int{32, 48, 66}[zzsym.Choice("size", zzsym.Param("sizes", 3))]
	r, s := zzsym.Bytes("r", size), zzsym.Bytes("s", size)
	if zzsym.Choice("which", 2) == 0 {
		zzShape(r, size-1)
		zzShape(s, 1)
	} else {
		zzShape(r, 1)
		zzShape(s, size-1)
	}
	sig, err := encodeSignature(r, s)
	if zzsym.Any(zzZero(r), zzZero(s)) {
		zzsym.Reach("zero")
		zzsym.Assert(err != nil, "C26: a zero scalar was encoded")
		return
	}
	zzsym.Reach("encoded")
	zzsym.Assert(err == nil, "C26: valid scalars could not be encoded")
	want := zzRefDER(r, s)
	zzsym.Assert(len(sig) == len(want), "C26: a signature is not the minimal DER encoding of r and s")
	zzsym.Assert(zzsym.EqBytes(sig, want), "C26: the encoding of scalars is not their DER encoding")
}
