package ctmonitor

import (
	"bytes"
	"context"
	"encoding/base64"
	"encoding/json"
	"net/http"
	"os"
	"strconv"

	"go.opentelemetry.io/contrib/instrumentation/net/http/otelhttp"

	"itko.dev/internal/zzref"
	"itko.dev/internal/zzsym"
)

//gosym:model go.opentelemetry.io/contrib/instrumentation/net/http/otelhttp.NewHandler
func zzOtel(h http.Handler, operation string, opts ...otelhttp.Option) http.Handler { return h }

// zzWorld is a published log: what the submission side has stored after publishing trees of the sizes in pubs, the last of
// which (plus possibly an interrupted one) is current.
type zzWorld struct {
	dir      string
	mask     int
	size     int64   // of the stored tree head
	pubs     []int64 // tree sizes whose tiles are stored
	entries  map[int64]*zzref.Entry
	expanded map[[2]int64]bool // tiles whose hashes are told apart
	nodes    map[[2]int64][32]byte
	atoms    map[[2]int64][32]byte
	recs     []zzRecord
	fill     [2]int // other records at the beginning and at the end of the index object of odd atoms
	h        http.Handler
	sth      []byte
}

type zzRecord struct {
	h   [32]byte
	idx uint64
}

func zzNewWorld(size int64, pubs ...int64) *zzWorld {
	return &zzWorld{mask: 5, size: size, pubs: append(pubs, size), entries: map[int64]*zzref.Entry{}, expanded: map[[2]int64]bool{}, nodes: map[[2]int64][32]byte{}, atoms: map[[2]int64][32]byte{}}
}

// expand tells apart the hashes of the tiles above leaf i.
func (w *zzWorld) expand(i int64) {
	n := i
	for l := int64(0); l < 8; l++ {
		n >>= 8
		w.expanded[[2]int64{l, n}] = true
	}
}

func (w *zzWorld) atom(level int, i int64) [32]byte {
	k := [2]int64{int64(level), i}
	if h, ok := w.atoms[k]; ok {
		return h
	}
	var h [32]byte
	copy(h[3:], zzsym.Bytes("h"+strconv.Itoa(level)+"."+strconv.Itoa(int(i)), 29))
	h[0], h[1], h[2] = 0x5a, 0x12, 0x30
	if i&1 == 1 {
		h[2] = 0xc4
	}
	w.atoms[k] = h
	return h
}

// hash is entry i of level L of the tiles.
func (w *zzWorld) hash(level int, i int64) [32]byte {
	if level == 0 {
		if e := w.entries[i]; e != nil {
			return e.LeafHash()
		}
		return w.atom(0, i)
	}
	if w.expanded[[2]int64{int64(level - 1), i}] {
		k := [2]int64{int64(8 * level), i}
		h, ok := w.nodes[k]
		if !ok {
			h = zzref.Node(w.full(8*level-1, 2*i), w.full(8*level-1, 2*i+1))
			w.nodes[k] = h
		}
		return h
	}
	return w.atom(level, i)
}

// full is the hash of the complete subtree of height k.
func (w *zzWorld) full(k int, i int64) [32]byte {
	if k%8 == 0 {
		return w.hash(k/8, i)
	}
	key := [2]int64{int64(k), i}
	if h, ok := w.nodes[key]; ok {
		return h
	}
	if !w.expanded[[2]int64{int64(k / 8), i << (k % 8) >> 8}] {
		panic("zzWorld: tile not expanded")
	}
	h := zzref.Node(w.full(k-1, 2*i), w.full(k-1, 2*i+1))
	w.nodes[key] = h
	return h
}

func (w *zzWorld) root(n int64) [32]byte { return zzref.MTH(0, n, w.full) }

func (w *zzWorld) tile(level int, n int64, width int) []byte {
	var b []byte
	for i := 0; i < width; i++ {
		h := w.hash(level, n<<8+int64(i))
		b = append(b, h[:]...)
	}
	return b
}

func (w *zzWorld) entry(i int64) *zzref.Entry {
	if e := w.entries[i]; e != nil {
		return e
	}
	// an entry of no interest
	return &zzref.Entry{Cert: []byte{byte(i)}, Timestamp: 1, Index: uint64(i)}
}

func (w *zzWorld) dataTile(n int64, width int) []byte {
	var b []byte
	for i := 0; i < width; i++ {
		b = append(b, w.entry(n<<8+int64(i)).TileLeaf()...)
	}
	return b
}

func (w *zzWorld) put(key string, gen func() []byte) { zzsym.FsPut(w.dir+"/"+key, gen) }

func (w *zzWorld) putBytes(key string, b []byte) { w.put(key, func() []byte { return b }) }

// record adds a record to the record-hash index.
func (w *zzWorld) record(h [32]byte, idx int64) { w.recs = append(w.recs, zzRecord{h, uint64(idx)}) }

// broken makes the object unreadable with an error other than absence.
func (w *zzWorld) broken(key string) {
	if err := os.MkdirAll(w.dir+"/"+key, 0755); err != nil {
		panic(err)
	}
}

// publish stores everything and starts the monitor.  skip tells which objects are left out.
func (w *zzWorld) publish(data bool, skip func(key string) bool) {
	w.dir = zzsym.TempDir()
	w.store(data, skip)
	w.start(w.dir, "")
}

// store stores everything.
func (w *zzWorld) store(data bool, skip func(key string) bool) {
	max := int64(0)
	for _, p := range w.pubs {
		if p > max {
			max = p
		}
	}
	put := func(key string, gen func() []byte) {
		if skip == nil || !skip(key) {
			w.put(key, gen)
		}
	}
	for t := range w.expanded {
		level, n := int(t[0]), t[1]
		have := max>>(8*level) - n<<8
		if have <= 0 {
			continue
		}
		widths := map[int]bool{}
		if level == 0 {
			for _, p := range w.pubs {
				if x := p - n<<8; x > 0 {
					widths[int(min(x, 256))] = true
				}
			}
		} else {
			// at most 255 entries are added at a time, so every width of the higher tiles is published
			full := zzref.TilePath(level, n, 256)
			if have >= 256 {
				put(full, func() []byte { return w.tile(level, n, 256) })
				have = 255
			}
			if skip == nil || !skip(full+".p") {
				zzsym.FsPutAll(w.dir+"/"+full+".p/", int(have), func(x int) []byte { return w.tile(level, n, x) })
			}
		}
		for x := range widths {
			put(zzref.TilePath(level, n, x), func() []byte { return w.tile(level, n, x) })
			if level == 0 && data {
				put(zzref.TilePath(-1, n, x), func() []byte { return w.dataTile(n, x) })
			}
		}
	}
	if data {
		for _, e := range w.entries {
			for _, c := range e.Chain {
				fp := zzsym.Digest(c)
				put("issuer/"+zzHex(fp[:]), func() []byte { return c })
			}
		}
	}
	root := w.root(w.size)
	w.sth = []byte(`{"tree_size":` + strconv.FormatInt(w.size, 10) + `,"timestamp":1700000000000,"sha256_root_hash":"` +
		base64.StdEncoding.EncodeToString(root[:]) + `","tree_head_signature":"` + base64.StdEncoding.EncodeToString([]byte{4, 3, 0, 2, 0x30, 0}) + `"}`)
	put("ct/v1/get-sth", func() []byte { return w.sth })
	put("ct/v1/get-roots", func() []byte { return []byte(`{"certificates":[]}`) })
	files := map[string][]byte{}
	// records sorted by hash
	var sorted []zzRecord
	for _, r := range w.recs {
		i := 0
		for i < len(sorted) && bytes.Compare(sorted[i].h[:16], r.h[:16]) <= 0 {
			i++
		}
		sorted = append(sorted[:i:i], append([]zzRecord{r}, sorted[i:]...)...)
	}
	for _, r := range sorted {
		k := "int/hashes/" + zzref.HashPath(r.h[:], w.mask)
		files[k] = append(files[k], zzref.Cat(r.h[:16], zzref.LE(r.idx, 5))...)
	}
	if w.fill[0]+w.fill[1] > 0 {
		k := "int/hashes/" + zzref.HashPath([]byte{0x5a, 0x12, 0xc4}, w.mask)
		fill := func(c byte, n int) []byte {
			b := make([]byte, 0, 21*n)
			for i := 0; i < n; i++ {
				b = append(b, 0x5a, 0x12, c, byte(i>>16), byte(i>>8), byte(i), 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, byte(i), byte(i>>8), 0, 0, 0)
			}
			return b
		}
		files[k] = zzref.Cat(fill(0xc0, w.fill[0]), files[k], fill(0xcf, w.fill[1]))
	}
	for k, b := range files {
		put(k, func() []byte { return b })
	}
}

func (w *zzWorld) start(dir, url string) {
	h, err := Start(context.Background(), dir, url, w.mask)
	if err != nil {
		zzsym.Fail("C21: the monitor does not start")
	}
	w.h = h
}

func zzHex(b []byte) string { return zzref.Hex(b) }

// zzResp is what a client gets: header fields set after the status is written are not sent.
type zzResp struct {
	code int
	set  http.Header
	hdr  http.Header
	body []byte
}

func (r *zzResp) Header() http.Header {
	if r.set == nil {
		r.set = http.Header{}
	}
	return r.set
}
func (r *zzResp) WriteHeader(c int) {
	if r.code == 0 {
		r.code = c
		for k, v := range r.set {
			r.hdr[k] = v
		}
	}
}
func (r *zzResp) Write(b []byte) (int, error) {
	r.WriteHeader(200)
	r.body = append(r.body, b...)
	return len(b), nil
}

func (r *zzResp) ok() bool { return r.code >= 200 && r.code < 300 }

// get makes a request; kv are query keys and values.
func (w *zzWorld) get(endpoint string, kv ...string) *zzResp { return w.do("GET", endpoint, kv...) }

func (w *zzWorld) do(method, endpoint string, kv ...string) *zzResp {
	req, err := http.NewRequest(method, "http://monitor.test"+endpoint, nil)
	if err != nil {
		panic(err)
	}
	q := map[string][]string{}
	for i := 0; i+1 < len(kv); i += 2 {
		q[kv[i]] = append(q[kv[i]], kv[i+1])
	}
	zzsym.SetQuery(req.URL, q)
	if req.Body == nil {
		req.Body = http.NoBody
	}
	r := &zzResp{hdr: http.Header{}}
	w.h.ServeHTTP(r, req)
	return r
}

func zzDec(i int64) string { return strconv.FormatInt(i, 10) }

func zzHashes(in [][]byte, msg string) [][32]byte {
	var out [][32]byte
	for _, b := range in {
		zzsym.Assert(len(b) == 32, msg)
		out = append(out, [32]byte(b))
	}
	return out
}

func zzDecode(body []byte, v any, msg string) {
	err := json.Unmarshal(body, v)
	zzsym.Assert(err == nil, msg)
}
