package zzref

import (
	"strconv"

	"itko.dev/internal/zzsym"
)

// Tree is a Merkle tree some of whose entries and tiles are spelled out; every other leaf or subtree has an arbitrary hash.
type Tree struct {
	Entries  map[int64]*Entry
	expanded map[[2]int64]bool
	nodes    map[[2]int64][32]byte
	atoms    map[[2]int64][32]byte
	tiles    map[[2]int64]*cached
	filler   []byte

	// RealFrom is the first leaf whose hash is that of its (stand-in) entry, an entry of one arbitrary byte; negative: none.
	RealFrom int64
	certs    map[int64][]byte
}

// cached is the contents of a tile up to some width.
type cached struct {
	b   []byte
	off []int // where each entry ends
}

func NewTree() *Tree {
	return &Tree{Entries: map[int64]*Entry{}, expanded: map[[2]int64]bool{}, nodes: map[[2]int64][32]byte{}, atoms: map[[2]int64][32]byte{}, tiles: map[[2]int64]*cached{}, RealFrom: -1, certs: map[int64][]byte{}}
}

// Expand tells apart the hashes of the tiles above leaf i.
func (t *Tree) Expand(i int64) {
	for l := int64(0); l < 8; l++ {
		i >>= 8
		t.expanded[[2]int64{l, i}] = true
	}
}

// Truncate forgets the entries from n on.
func (t *Tree) Truncate(n int64) {
	e := map[int64]*Entry{}
	for i, x := range t.Entries {
		if i < n {
			e[i] = x
		}
	}
	t.Entries = e
	t.nodes = map[[2]int64][32]byte{}
	t.tiles = map[[2]int64]*cached{}
}

func (t *Tree) atom(level int, i int64) [32]byte {
	k := [2]int64{int64(level), i}
	if h, ok := t.atoms[k]; ok {
		return h
	}
	var h [32]byte
	copy(h[3:], zzsym.Bytes("h"+strconv.Itoa(level)+"."+strconv.Itoa(int(i)), 29))
	h[0], h[1], h[2] = 0x5a, 0x12, 0x30
	if i&1 == 1 {
		h[2] = 0xc4
	}
	t.atoms[k] = h
	return h
}

// Hash is entry i of level L of the tiles.
func (t *Tree) Hash(level int, i int64) [32]byte {
	if level == 0 {
		if e := t.Entries[i]; e != nil {
			k := [2]int64{0, i}
			h, ok := t.nodes[k]
			if !ok {
				h = e.LeafHash()
				t.nodes[k] = h
			}
			return h
		}
		if t.real(i) {
			k := [2]int64{0, i}
			h, ok := t.nodes[k]
			if !ok {
				// leaf: version, type, timestamp, entry type, certificate, extensions
				h = zzsym.Digest(Cat([]byte{0, 0, 0}, t.appendEntry(nil, i)[:24]))
				t.nodes[k] = h
			}
			return h
		}
		return t.atom(0, i)
	}
	if t.expanded[[2]int64{int64(level - 1), i}] {
		k := [2]int64{int64(8 * level), i}
		h, ok := t.nodes[k]
		if !ok {
			h = Node(t.Full(8*level-1, 2*i), t.Full(8*level-1, 2*i+1))
			t.nodes[k] = h
		}
		return h
	}
	return t.atom(level, i)
}

// Full is the hash of the complete subtree of height k.
func (t *Tree) Full(k int, i int64) [32]byte {
	if k%8 == 0 {
		return t.Hash(k/8, i)
	}
	key := [2]int64{int64(k), i}
	if h, ok := t.nodes[key]; ok {
		return h
	}
	if !t.expanded[[2]int64{int64(k / 8), i << (k % 8) >> 8}] {
		panic("zzref: tile not expanded")
	}
	h := Node(t.Full(k-1, 2*i), t.Full(k-1, 2*i+1))
	t.nodes[key] = h
	return h
}

func (t *Tree) Root(n int64) [32]byte { return MTH(0, n, t.Full) }

func (t *Tree) cached(level, n int64, width int, add func(b []byte, i int64) []byte) []byte {
	k := [2]int64{level, n}
	c := t.tiles[k]
	if c == nil {
		c = &cached{}
		t.tiles[k] = c
	}
	for i := len(c.off); i < width; i++ {
		c.b = add(c.b, n<<8+int64(i))
		c.off = append(c.off, len(c.b))
	}
	if width == 0 {
		return nil
	}
	return c.b[:c.off[width-1]:c.off[width-1]]
}

// Tile is a hash tile.  Entries must be set before the first tile they are part of is asked for.
func (t *Tree) Tile(level int, n int64, width int) []byte {
	return t.cached(int64(level), n, width, func(b []byte, i int64) []byte {
		h := t.Hash(level, i)
		return append(b, h[:]...)
	})
}

// Entry is entry i, or a stand-in if it is of no interest.
func (t *Tree) Entry(i int64) *Entry {
	if e := t.Entries[i]; e != nil {
		return e
	}
	return &Entry{Cert: t.cert(i), Timestamp: 1, Index: uint64(i)}
}

func (t *Tree) real(i int64) bool { return t.RealFrom >= 0 && i >= t.RealFrom }

func (t *Tree) cert(i int64) []byte {
	if !t.real(i) {
		return []byte{byte(i)}
	}
	if t.certs[i] == nil {
		t.certs[i] = zzsym.Bytes("cert"+strconv.Itoa(int(i)), 1)
	}
	return t.certs[i]
}

// appendEntry appends the data tile entry of stand-in i.
func (t *Tree) appendEntry(b []byte, i int64) []byte {
	if t.filler == nil {
		t.filler = (&Entry{Cert: []byte{0}, Timestamp: 1}).TileLeaf()
	}
	k := len(b)
	b = append(b, t.filler...)
	b[k+13], b[k+22], b[k+23] = t.cert(i)[0], byte(i>>8), byte(i)
	b[k+21] = byte(i >> 16)
	return b
}

func (t *Tree) DataTile(n int64, width int) []byte {
	return t.cached(-1, n, width, func(b []byte, i int64) []byte {
		if t.Entries[i] != nil {
			return append(b, t.Entries[i].TileLeaf()...)
		}
		return t.appendEntry(b, i)
	})
}

// Span is a tile a tree consists of.
type Span struct {
	Level int // -1: data
	N     int64
	W     int
}

func (s Span) Path() string { return TilePath(s.Level, s.N, s.W) }

// Spans are the tiles (data tiles included) of the tree of size n that the tree of size old does not have.
func Spans(old, n int64) []Span {
	var out []Span
	for level := 0; n>>(8*level) > 0; level++ {
		from, to := old>>(8*level), n>>(8*level)
		if from == to {
			continue
		}
		for t := from >> 8; t<<8 < to; t++ {
			w := int(min(256, to-t<<8))
			out = append(out, Span{level, t, w})
			if level == 0 {
				out = append(out, Span{-1, t, w})
			}
		}
	}
	return out
}

// Bytes are the contents of a tile.
func (t *Tree) Bytes(s Span) []byte {
	if s.Level < 0 {
		return t.DataTile(s.N, s.W)
	}
	return t.Tile(s.Level, s.N, s.W)
}

// ParseTilePath inverts Span.Path.
func ParseTilePath(p string) (s Span, ok bool) {
	const pre = "tile/"
	if len(p) < len(pre) || p[:len(pre)] != pre {
		return s, false
	}
	p = p[len(pre):]
	i := 0
	for i < len(p) && p[i] != '/' {
		i++
	}
	if i == len(p) {
		return s, false
	}
	s.Level = -1
	if l := p[:i]; l != "data" {
		if s.Level, ok = num(l); !ok {
			return s, false
		}
	}
	s.W = 256
	for _, part := range splitSlash(p[i+1:]) {
		if n := len(part); n > 2 && part[n-2:] == ".p" {
			part = part[:n-2]
			s.W = 0
		} else if s.W == 0 {
			s.W, ok = num(part)
			return s, ok
		}
		if part[0] == 'x' {
			part = part[1:]
		}
		v, ok := num(part)
		if !ok {
			return s, false
		}
		s.N = s.N*1000 + int64(v)
	}
	return s, s.W == 256
}

func num(s string) (int, bool) {
	v := 0
	for i := 0; i < len(s); i++ {
		if s[i] < '0' || s[i] > '9' {
			return 0, false
		}
		v = v*10 + int(s[i]-'0')
	}
	return v, len(s) > 0
}

func splitSlash(s string) []string {
	var out []string
	for {
		i := 0
		for i < len(s) && s[i] != '/' {
			i++
		}
		out = append(out, s[:i])
		if i == len(s) {
			return out
		}
		s = s[i+1:]
	}
}
