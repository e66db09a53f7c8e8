// Package zzref holds reference definitions, written from RFC 6962, RFC 9162 and c2sp.org/static-ct-api and independent
// of the code under test.
package zzref

import (
	"encoding/hex"

	"itko.dev/internal/zzsym"
)

func BE(v uint64, n int) []byte {
	out := make([]byte, n)
	for i := 0; i < n; i++ {
		out[n-1-i] = byte(v >> (8 * i))
	}
	return out
}

func LE(v uint64, n int) []byte {
	out := make([]byte, n)
	for i := 0; i < n; i++ {
		out[i] = byte(v >> (8 * i))
	}
	return out
}

func Cat(parts ...[]byte) []byte {
	out := []byte{}
	for _, p := range parts {
		out = append(out, p...)
	}
	return out
}

// Vec is a TLS vector with a length prefix.
func Vec(lenBytes int, b []byte) []byte { return Cat(BE(uint64(len(b)), lenBytes), b) }

// Entry is a log entry.
type Entry struct {
	Precert   bool
	Cert      []byte // certificate or TBS certificate
	KeyHash   [32]byte
	PreCert   []byte
	Chain     [][]byte // certificates above the leaf
	Timestamp uint64
	Index     uint64
}

func (e *Entry) timestamped() []byte {
	ext := Vec(2, Cat([]byte{0, 0, 5}, BE(e.Index, 5)))
	if e.Precert {
		return Cat(BE(e.Timestamp, 8), []byte{0, 1}, e.KeyHash[:], Vec(3, e.Cert), ext)
	}
	return Cat(BE(e.Timestamp, 8), []byte{0, 0}, Vec(3, e.Cert), ext)
}

// Leaf is the MerkleTreeLeaf (and the input of the SCT signature).
func (e *Entry) Leaf() []byte { return Cat([]byte{0, 0}, e.timestamped()) }

func (e *Entry) LeafHash() [32]byte { return zzsym.Digest(Cat([]byte{0}, e.Leaf())) }

// TileLeaf is the entry's part of a data tile.
func (e *Entry) TileLeaf() []byte {
	b := e.timestamped()
	if e.Precert {
		b = Cat(b, Vec(3, e.PreCert))
	}
	fps := []byte{}
	for _, c := range e.Chain {
		f := zzsym.Digest(c)
		fps = append(fps, f[:]...)
	}
	return Cat(b, Vec(2, fps))
}

// Extra is the extra_data of get-entries.
func (e *Entry) Extra() []byte {
	ch := []byte{}
	for _, c := range e.Chain {
		ch = append(ch, Vec(3, c)...)
	}
	if e.Precert {
		return Cat(Vec(3, e.PreCert), Vec(3, ch))
	}
	return Vec(3, ch)
}

// Node is the hash of an interior node.
func Node(l, r [32]byte) [32]byte { return zzsym.Digest(Cat([]byte{1}, l[:], r[:])) }

// EmptyRoot is the root of the empty tree.
func EmptyRoot() [32]byte { return zzsym.Digest(nil) }

func split(n int64) int64 {
	k := int64(1)
	for k*2 < n {
		k *= 2
	}
	return k
}

// MTH is the Merkle tree hash of leaves lo..hi-1, given the hashes of complete subtrees: full(k, i) covers leaves
// i<<k .. (i+1)<<k.
func MTH(lo, hi int64, full func(k int, i int64) [32]byte) [32]byte {
	if lo == hi {
		return EmptyRoot()
	}
	n := hi - lo
	k := 0
	for int64(1)<<k < n {
		k++
	}
	if int64(1)<<k == n {
		return full(k, lo>>k)
	}
	m := split(n)
	return Node(MTH(lo, lo+m, full), MTH(lo+m, hi, full))
}

// InclusionRoot is the root an inclusion proof leads to; ok is false if the proof has the wrong length (RFC 9162, 2.1.3.2).
func InclusionRoot(leaf [32]byte, index, size int64, path [][32]byte) (r [32]byte, ok bool) {
	if index < 0 || index >= size {
		return r, false
	}
	fn, sn := index, size-1
	r = leaf
	for _, p := range path {
		if sn == 0 {
			return r, false
		}
		if fn&1 == 1 || fn == sn {
			r = Node(p, r)
			if fn&1 == 0 {
				for fn&1 == 0 && fn != 0 {
					fn >>= 1
					sn >>= 1
				}
			}
		} else {
			r = Node(r, p)
		}
		fn >>= 1
		sn >>= 1
	}
	return r, sn == 0
}

// Consistent reports whether a consistency proof verifies (RFC 9162, 2.1.4.2), as a condition.
func Consistent(first, second int64, root1, root2 [32]byte, path [][32]byte) bool {
	if first == second || first == 0 {
		return len(path) == 0
	}
	if len(path) == 0 {
		return false
	}
	p := path
	if first&(first-1) == 0 {
		p = append([][32]byte{root1}, path...)
	}
	fn, sn := first-1, second-1
	for fn&1 == 1 {
		fn >>= 1
		sn >>= 1
	}
	fr, sr := p[0], p[0]
	for _, c := range p[1:] {
		if sn == 0 {
			return false
		}
		if fn&1 == 1 || fn == sn {
			fr = Node(c, fr)
			sr = Node(c, sr)
			for fn&1 == 0 && fn != 0 {
				fn >>= 1
				sn >>= 1
			}
		} else {
			sr = Node(sr, c)
		}
		fn >>= 1
		sn >>= 1
	}
	if sn != 0 {
		return false
	}
	return zzsym.All(zzsym.EqBytes(fr[:], root1[:]), zzsym.EqBytes(sr[:], root2[:]))
}

const digits = "0123456789"

// TilePath is the static-ct object name of a tile; level -1 is the data tile.
func TilePath(level int, n int64, w int) string {
	three := func(v int64) string {
		return string([]byte{digits[v/100%10], digits[v/10%10], digits[v%10]})
	}
	s := three(n % 1000)
	for n >= 1000 {
		n /= 1000
		s = "x" + three(n%1000) + "/" + s
	}
	l := "data"
	if level >= 0 {
		l = dec(level)
	}
	s = "tile/" + l + "/" + s
	if w != 256 {
		s += ".p/" + dec(w)
	}
	return s
}

func dec(v int) string {
	if v < 10 {
		return string([]byte{digits[v]})
	}
	return dec(v/10) + dec(v%10)
}

// HashPath is the path of a hash's bucket: its first mask hexadecimal digits, two per directory.
func HashPath(h []byte, mask int) string {
	const hex = "0123456789abcdef"
	var out []byte
	for i := 0; i < mask; i++ {
		if i > 0 && i%2 == 0 {
			out = append(out, '/')
		}
		if i%2 == 0 {
			out = append(out, hex[h[i/2]>>4])
		} else {
			out = append(out, hex[h[i/2]&15])
		}
	}
	return string(out)
}

// Hex is lower-case hexadecimal.
func Hex(b []byte) string { return hex.EncodeToString(b) }
