package sunlight

import (
	"crypto/sha256"
	"fmt"

	"itko.dev/internal/zzsym"

	"golang.org/x/mod/sumdb/tlog"
)

// ---- reference encodings, written from RFC 6962 section 3.4 and c2sp.org/static-ct-api

func zzBE(v uint64, n int) []byte {
	out := make([]byte, n)
	for i := 0; i < n; i++ {
		out[n-1-i] = byte(v >> (8 * i))
	}
	return out
}

func zzCat(parts ...[]byte) []byte {
	out := []byte{}
	for _, p := range parts {
		out = append(out, p...)
	}
	return out
}

func zzVec(lenBytes int, b []byte) []byte { return zzCat(zzBE(uint64(len(b)), lenBytes), b) }

func ZZRefExt(idx uint64) []byte { return zzCat([]byte{0, 0, 5}, zzBE(idx, 5)) }

func zzRefEntry(e *LogEntry) []byte {
	ext := zzVec(2, ZZRefExt(e.LeafIndex))
	if e.IsPrecert {
		return zzCat(zzBE(uint64(e.Timestamp), 8), []byte{0, 1}, e.IssuerKeyHash[:], zzVec(3, e.Certificate), ext)
	}
	return zzCat(zzBE(uint64(e.Timestamp), 8), []byte{0, 0}, zzVec(3, e.Certificate), ext)
}

// ZZRefLeaf is the reference MerkleTreeLeaf.
func ZZRefLeaf(e *LogEntry) []byte { return zzCat([]byte{0, 0}, zzRefEntry(e)) }

// ZZRefTileLeaf is the reference TileLeaf.
func ZZRefTileLeaf(e *LogEntry) []byte {
	b := zzRefEntry(e)
	if e.IsPrecert {
		b = zzCat(b, zzVec(3, e.PreCertificate))
	}
	fps := []byte{}
	for _, f := range e.ChainFp {
		fps = append(fps, f[:]...)
	}
	return zzCat(b, zzVec(2, fps))
}

// zzLen picks a length: small ones and the boundaries of one and two length bytes.
func zzLen(name string, small int, big bool) int {
	n := small + 1
	if big {
		n += 3
	}
	c := zzsym.Choice(name, n)
	if c <= small {
		return c
	}
	return []int{255, 256, 65536}[c-small-1]
}

// ZZEntry is an arbitrary entry.
func ZZEntry(tag string, small, maxFp int, big bool) *LogEntry {
	e := &LogEntry{
		Certificate: zzsym.Bytes(tag+"cert", zzLen(tag+"certlen", small, big)),
		Timestamp:   zzsym.I64(tag + "ts"),
		LeafIndex:   zzsym.U64(tag + "idx"),
	}
	if zzsym.Choice(tag+"precert", 2) == 1 {
		e.IsPrecert = true
		e.IssuerKeyHash = zzsym.Hash(tag + "ikh")
		e.PreCertificate = zzsym.Bytes(tag+"pre", zzLen(tag+"prelen", small, false))
	} else if zzsym.Choice(tag+"junk", 2) == 1 {
		// "Otherwise, the following three fields are zero and ignored"
		e.IssuerKeyHash = zzsym.Hash(tag + "ikh")
	}
	n := zzsym.Choice(tag+"fps", maxFp+1)
	for i := 0; i < n; i++ {
		e.ChainFp = append(e.ChainFp, zzsym.Hash(tag+"fp"))
	}
	return e
}

func zzPanics(f func()) (p bool) {
	defer func() {
		if recover() != nil {
			p = true
		}
	}()
	f()
	return false
}

// VerifLeafBytes: C09.
func VerifLeafBytes() {
	e := ZZEntry("e", zzsym.Param("cert", 3), 1, true)
	var got []byte
	panicked := zzPanics(func() { got = e.MerkleTreeLeaf() })
	if e.LeafIndex >= 1<<40 {
		zzsym.Reach("index too large")
		zzsym.Assert(panicked, "C09: an index that does not fit 40 bits was encoded in a Merkle leaf")
		return
	}
	zzsym.Reach("leaf")
	zzsym.Assert(!panicked, "C09: encoding a valid entry panicked")
	want := ZZRefLeaf(e)
	zzsym.Assert(len(got) == len(want), "C09: MerkleTreeLeaf has the wrong length")
	zzsym.Assert(zzsym.EqBytes(got, want), "C09: MerkleTreeLeaf differs from the RFC 6962 encoding")
}

// VerifLeafUnique: C09, the leaf determines its fields.
func VerifLeafUnique() {
	n := zzsym.Param("cert", 3)
	a, b := ZZEntry("a", n, 0, false), ZZEntry("b", n, 0, false)
	zzsym.Assume(a.LeafIndex < 1<<40 && b.LeafIndex < 1<<40)
	x, y := a.MerkleTreeLeaf(), b.MerkleTreeLeaf()
	same := zzsym.EqBytes(x, y)
	zzsym.Reach("unique")
	zzsym.Assert(zzsym.Implies(same, a.IsPrecert == b.IsPrecert), "C09: two entries of different types share a Merkle leaf")
	zzsym.Assert(zzsym.Implies(same, zzsym.All(a.Timestamp == b.Timestamp, a.LeafIndex == b.LeafIndex)), "C09: entries with different timestamps or indices share a Merkle leaf")
	zzsym.Assert(zzsym.Implies(same, zzsym.EqBytes(a.Certificate, b.Certificate)), "C09: entries with different certificates share a Merkle leaf")
	if a.IsPrecert && b.IsPrecert {
		zzsym.Assert(zzsym.Implies(same, zzsym.EqBytes(a.IssuerKeyHash[:], b.IssuerKeyHash[:])), "C09: entries with different issuer key hashes share a Merkle leaf")
	}
}

// VerifSequenceCopies: C09, sequencing assigns index and timestamp and leaves the submitted content alone.
func VerifSequenceCopies() {
	e := ZZEntry("e", 2, 2, false)
	u := UnsequencedEntry{Certificate: e.Certificate, IsPrecert: e.IsPrecert, IssuerKeyHash: e.IssuerKeyHash, PreCertificate: e.PreCertificate, CertificateFp: zzsym.Hash("cfp"), ChainFp: e.ChainFp}
	s := u.Sequence(e.LeafIndex, e.Timestamp)
	zzsym.Reach("sequence")
	zzsym.Assert(s.LeafIndex == e.LeafIndex && s.Timestamp == e.Timestamp, "C09: Sequence stored another index or timestamp")
	zzsym.Assert(s.IsPrecert == e.IsPrecert, "C09: Sequence changed the entry type")
	zzsym.Assert(zzsym.EqBytes(s.Certificate, e.Certificate), "C09: Sequence changed the certificate")
	zzsym.Assert(zzsym.EqBytes(s.PreCertificate, e.PreCertificate), "C09: Sequence changed the precertificate")
	zzsym.Assert(zzsym.EqBytes(s.IssuerKeyHash[:], e.IssuerKeyHash[:]), "C09: Sequence changed the issuer key hash")
	zzsym.Assert(zzsym.EqBytes(s.CertificateFp[:], u.CertificateFp[:]), "C09: Sequence changed the fingerprint")
	zzsym.Assert(zzSameFps(s.ChainFp, e.ChainFp), "C09: Sequence changed the chain fingerprints")
}

func zzSameFps(a, b [][32]byte) bool {
	if len(a) != len(b) {
		return false
	}
	ok := true
	for i := range a {
		ok = zzsym.All(ok, zzsym.EqBytes(a[i][:], b[i][:]))
	}
	return ok
}

// ZZSameEntry compares what a data tile stores.
func ZZSameEntry(a, b *LogEntry) bool {
	if a.IsPrecert != b.IsPrecert {
		return false
	}
	ok := zzsym.All(a.Timestamp == b.Timestamp, a.LeafIndex == b.LeafIndex, zzsym.EqBytes(a.Certificate, b.Certificate), zzSameFps(a.ChainFp, b.ChainFp))
	if a.IsPrecert {
		ok = zzsym.All(ok, zzsym.EqBytes(a.IssuerKeyHash[:], b.IssuerKeyHash[:]), zzsym.EqBytes(a.PreCertificate, b.PreCertificate))
	}
	return ok
}

// VerifTileRoundTrip: C10, append then read.
func VerifTileRoundTrip() {
	n := zzsym.Choice("entries", zzsym.Param("entries", 2)) + 1
	pre := zzsym.Bytes("prefix", zzsym.Choice("prefixlen", 2)*3)
	tile := append([]byte{}, pre...)
	var es []*LogEntry
	for i := 0; i < n; i++ {
		e := ZZEntry("e", zzsym.Param("cert", 1), 2, i == 0 && n == 1)
		zzsym.Assume(e.LeafIndex < 1<<40 && e.Timestamp >= 0)
		if n == 1 && len(e.Certificate) == 1 && len(e.ChainFp) == 2 {
			// a chain of any length up to what two length bytes can tell
			for k := []int{2, 3, 8, 9, 10, 11, 127, 128, 255, 256, 300, 2047}[zzsym.Choice("longchain", 12)]; len(e.ChainFp) < k; {
				e.ChainFp = append(e.ChainFp, [32]byte{byte(len(e.ChainFp)), byte(len(e.ChainFp) >> 8), 7})
			}
		}
		es = append(es, e)
		before := append([]byte{}, tile...)
		tile = AppendTileLeaf(tile, e)
		zzsym.Assert(zzsym.EqBytes(tile, zzCat(before, ZZRefTileLeaf(e))), "C10: AppendTileLeaf did not append the TileLeaf encoding of the entry to the tile")
	}
	rest := tile[len(pre):]
	for i := 0; i < n; i++ {
		var e *LogEntry
		var err error
		e, rest, err = ReadTileLeaf(rest)
		zzsym.Assert(err == nil, "C10: an appended entry cannot be read back")
		zzsym.Assert(ZZSameEntry(e, es[i]), "C10: an entry read back differs from the one appended")
		fp := sha256.Sum256(e.Certificate)
		if e.IsPrecert {
			fp = sha256.Sum256(e.PreCertificate)
		}
		zzsym.Assert(zzsym.EqBytes(fp[:], e.CertificateFp[:]), "C10: fingerprint of an entry read back is not that of its certificate")
	}
	zzsym.Reach("roundtrip")
	zzsym.Assert(len(rest) == 0, "C10: bytes left over after reading every entry")
}

// VerifTileArbitrary: C10, arbitrary bytes.
func VerifTileArbitrary() {
	// every short length, then lengths around the smallest entry with a fingerprint, the smallest precertificate entry
	// and the smallest precertificate entry with a fingerprint; certificates of at most two bytes in the longer ones
	small := zzsym.Param("len", 27)
	n := zzsym.Choice("len", small+1+zzsym.Param("long", 4))
	long := n > small
	if long {
		n = []int{57, 58, 60, 61, 92}[n-small-1]
	}
	b := zzsym.Bytes("tile", n)
	if long {
		at := 10
		if b[9] == 1 {
			at = 42
		}
		zzsym.Assume(zzsym.All(b[at] == 0, b[at+1] == 0, b[at+2] <= 2))
	}
	in := append([]byte{}, b...)
	e, rest, err := ReadTileLeaf(b)
	if err != nil {
		zzsym.Reach("rejected")
		return
	}
	zzsym.Reach("accepted")
	if len(e.ChainFp) > 0 {
		zzsym.Reach("accepted with a chain")
	}
	zzsym.Assert(len(rest) < n, "C10: reading an entry made no progress")
	zzsym.Assert(e.LeafIndex < 1<<40 && e.Timestamp >= 0, "C10: decoded entry has an impossible index or timestamp")
	zzsym.Assert(zzsym.EqBytes(in, zzCat(ZZRefTileLeaf(e), rest)), "C10: accepted bytes are not the encoding of the entry returned followed by the remainder")
}

// VerifExtRoundTrip: C11.
func VerifExtRoundTrip() {
	idx := zzsym.U64("idx")
	b, err := MarshalExtensions(Extensions{LeafIndex: idx})
	if idx >= 1<<40 {
		zzsym.Reach("too large")
		zzsym.Assert(err != nil, "C11: an index of more than 40 bits was encoded")
		return
	}
	zzsym.Reach("fits")
	zzsym.Assert(err == nil, "C11: a valid index was refused")
	zzsym.Assert(zzsym.EqBytes(b, ZZRefExt(idx)), "C11: the leaf_index extension is not encoded as static-ct says")
	p, err := ParseExtensions(b)
	zzsym.Assert(err == nil, "C11: the encoding of an index does not parse")
	zzsym.Assert(p.LeafIndex == idx, "C11: the index does not round-trip")
	// unknown extensions before it are ignored
	ul := zzsym.Choice("ulen", 4)
	ut := zzsym.U8("utype")
	zzsym.Assume(ut != 0)
	pre := zzCat([]byte{ut}, zzVec(2, zzsym.Bytes("udata", ul)))
	p, err = ParseExtensions(zzCat(pre, b))
	zzsym.Assert(err == nil && p.LeafIndex == idx, "C11: an unknown extension before leaf_index is not ignored")
}

// zzRefParse is the reference parser: index, found.
func zzRefParse(b []byte) (uint64, bool) {
	for len(b) > 0 {
		if len(b) < 3 {
			return 0, false
		}
		n := zzsym.Conc(int(b[1])<<8 | int(b[2]))
		if len(b) < 3+n {
			return 0, false
		}
		if b[0] == 0 {
			if n != 5 {
				return 0, false
			}
			v := uint64(0)
			for _, x := range b[3:8] {
				v = v<<8 | uint64(x)
			}
			return v, true
		}
		b = b[3+n:]
	}
	return 0, false
}

// VerifExtArbitrary: C11, arbitrary bytes.
func VerifExtArbitrary() {
	n := zzsym.Range("len", 0, zzsym.Param("len", 16))
	b := zzsym.Bytes("ext", n)
	in := append([]byte{}, b...)
	// lengths beyond the buffer behave alike: one representative is enough for the reference parser
	p, err := ParseExtensions(b)
	if err == nil {
		zzsym.Reach("accepted")
		v, ok := zzRefParse(in)
		zzsym.Assert(ok, "C11: malformed extensions were accepted")
		zzsym.Assert(v == p.LeafIndex, "C11: the index returned is not the one carried by the extension")
	} else {
		zzsym.Reach("rejected")
	}
}

// ---- C12

func zzRefPath(level int, n uint64, w int) string {
	s := ""
	d := n
	first := true
	for first || d > 0 {
		g := d % 1000
		d /= 1000
		el := string([]byte{'0' + byte(g/100), '0' + byte(g/10%10), '0' + byte(g%10)})
		if first {
			s = el
		} else {
			s = "x" + el + "/" + s
		}
		first = false
	}
	l := "data"
	if level >= 0 {
		l = zzSmall(level)
	}
	p := "tile/" + l + "/" + s
	if w != 256 {
		p += ".p/" + zzSmall(w)
	}
	return p
}

func zzSmall(v int) string {
	if v >= 100 {
		return string([]byte{'0' + byte(v/100), '0' + byte(v/10%10), '0' + byte(v%10)})
	}
	if v >= 10 {
		return string([]byte{'0' + byte(v/10), '0' + byte(v%10)})
	}
	return string([]byte{'0' + byte(v)})
}

func zzTile(tag string, levels int) (tlog.Tile, uint64) {
	l := zzsym.Choice(tag+"level", levels) - 1
	// the tile number, three digits at a time, up to 10^12 (trees of up to 2^40 leaves have fewer than 2^32 tiles)
	groups := zzsym.Choice(tag+"groups", 4) + 1
	n := 0
	for i := 0; i < groups; i++ {
		d := zzsym.Below(tag+"digits", 1000)
		if i == 0 && groups > 1 {
			zzsym.Assume(d > 0)
		}
		n = n*1000 + d
	}
	wd := 256
	switch zzsym.Choice(tag+"wclass", 4) {
	case 1:
		wd = 1 + zzsym.Below(tag+"w1", 9)
	case 2:
		wd = 10 + zzsym.Below(tag+"w2", 90)
	case 3:
		wd = 100 + zzsym.Below(tag+"w3", 156)
	}
	return tlog.Tile{H: 8, L: l, N: int64(n), W: wd}, uint64(n)
}

// VerifPath: C12, the name is the static-ct path.
func VerifPath() {
	t, n := zzTile("a", zzsym.Param("levels", 6))
	p := Path(t)
	zzsym.Reach("path")
	zzsym.Assert(p == zzRefPath(t.L, n, t.W), "C12: the object name of a tile is not its static-ct path")
}

// zzReadDigits reads decimal digits up to a separator.
func zzReadDigits(s string) (v, n int) {
	for n < len(s) && s[n] != '/' && s[n] != '.' {
		v = v*10 + int(s[n]-'0')
		n++
	}
	return v, n
}

// VerifPathInvertible: C12, the name splits into a level, elements of three digits and a width.
func VerifPathInvertible() {
	t, _ := zzTile("a", zzsym.Param("levels", 6))
	p := Path(t)
	zzsym.Assert(len(p) > 8 && p[:5] == "tile/", "C12: tile names do not start with tile/")
	p = p[5:]
	l := -1
	if p[:4] == "data" {
		p = p[4:]
	} else {
		v, n := zzReadDigits(p)
		l, p = v, p[n:]
	}
	n := 0
	for len(p) > 0 && p[0] == '/' {
		p = p[1:]
		more := p[0] == 'x'
		if more {
			p = p[1:]
		}
		v, k := zzReadDigits(p)
		zzsym.Assert(k == 3, "C12: a path element does not have three digits")
		n = n*1000 + v
		p = p[k:]
		if !more {
			break
		}
	}
	w := 256
	if len(p) > 0 {
		zzsym.Assert(len(p) > 3 && p[:3] == ".p/", "C12: malformed partial suffix")
		v, k := zzReadDigits(p[3:])
		w = v
		p = p[3+k:]
	}
	zzsym.Reach("inverted")
	zzsym.Assert(len(p) == 0, "C12: tile name has trailing characters")
	zzsym.Assert(l == t.L, "C12: the level cannot be read back from the tile name")
	zzsym.Assert(w == t.W, "C12: the width cannot be read back from the tile name")
	_ = n
}

var _ = fmt.Sprint
