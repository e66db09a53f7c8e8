package ctmonitor

import (
	"bytes"
	"context"
	"errors"
	"io"
	"net/url"
	"os"
	"strings"

	"github.com/fastly/compute-sdk-go/cache/simple"
	"github.com/fastly/compute-sdk-go/configstore"
	"github.com/fastly/compute-sdk-go/fsthttp"

	"itko.dev/internal/zzref"
	"itko.dev/internal/zzsym"
)

// zzEdge is what surrounds the edge deployment: config store, edge cache and backends.  (The SDK's calls into the host
// are redirected by harness/deps.json.)
type zzEdge struct {
	hosts     map[string]string // config store: backend of a host
	openFails bool
	objs      func(backend, path string) zzObject
	sends     int
	sent      map[string]zzObject // what was last sent
	cached    map[string][]byte
	evicts    bool // the edge cache keeps nothing
	fails     int  // 1: the edge cache is not available, 2: it cannot be written, 3: it cannot be read back
	touched   int  // uses of the edge cache
}

type zzObject struct {
	kind   int // 0: an answer, 1: no answer, 2: an answer that breaks off
	status int
	header string
	body   []byte
}

var zzErrEdge = errors.New("zz: edge failure")

func (e *zzEdge) install() {
	e.sent, e.cached = map[string]zzObject{}, map[string][]byte{}
	simple.ZZCache = e
	configstore.ZZOpen = func(name string) error {
		if e.openFails {
			return configstore.ErrStoreNotFound
		}
		return nil
	}
	configstore.ZZGet = func(key string) ([]byte, error) {
		b, ok := e.hosts[key]
		if !ok {
			return nil, configstore.ErrKeyNotFound
		}
		return []byte(b), nil
	}
	fsthttp.ZZSend = e.send
}

func (e *zzEdge) send(ctx context.Context, req *fsthttp.Request, backend string) (*fsthttp.Response, error) {
	e.sends++
	zzsym.Assert(req.Method == "GET", "C29: the backend is asked to do something else than GET")
	o := e.objs(backend, strings.TrimPrefix(req.URL.Path, "/"))
	e.sent[backend+req.URL.Path] = o
	if o.kind == 1 {
		return nil, zzErrEdge
	}
	h := fsthttp.NewHeader()
	if o.header != "" {
		h.Set("Cache-Control", o.header)
	}
	return &fsthttp.Response{Request: req, Backend: backend, StatusCode: o.status, Header: h, Body: &zzEdgeBody{bytes.NewReader(o.body), o.kind == 2}}, nil
}

// zzEdgeBody is a body that may break off.
type zzEdgeBody struct {
	r      io.Reader
	breaks bool
}

func (b *zzEdgeBody) Read(p []byte) (int, error) {
	n, err := b.r.Read(p)
	if err == io.EOF && b.breaks {
		return n, zzErrEdge
	}
	return n, err
}

func (b *zzEdgeBody) Close() error { return nil }

func (e *zzEdge) Get(key []byte) (io.ReadCloser, error) {
	e.touched++
	if b, ok := e.cached[string(key)]; ok && e.fails != 1 {
		return &zzEdgeBody{bytes.NewReader(b), e.fails == 3}, nil
	}
	return nil, zzErrEdge
}

func (e *zzEdge) GetOrSet(key []byte, setFn func() (simple.CacheEntry, error)) (io.ReadCloser, error) {
	e.touched++
	if e.fails == 1 {
		return nil, zzErrEdge
	}
	if b, ok := e.cached[string(key)]; ok {
		return &zzEdgeBody{bytes.NewReader(b), e.fails == 3}, nil
	}
	s, err := setFn()
	if err != nil {
		return nil, err
	}
	b, err := io.ReadAll(s.Body)
	if err != nil || e.fails == 2 {
		return nil, zzErrEdge
	}
	if s.TTL > 0 && !e.evicts {
		e.cached[string(key)] = b
	}
	return &zzEdgeBody{bytes.NewReader(b), e.fails == 3}, nil
}

func zzLocal(local bool) {
	h := "edge.test"
	if local {
		h = "localhost"
	}
	os.Setenv("FASTLY_HOSTNAME", h)
	os.Setenv("FASTLY_SERVICE_VERSION", "3")
}

var zzHeaders = []string{"", "max-age=60", "public, max-age=0", "no-store", "max-age=", "max-age=x", "max-age=99999999999", "max-age=-1", "s-maxage=5,max-age=7, immutable", ","}

// zzAnObject is any answer of a backend.
func zzAnObject(tag string, first bool) zzObject {
	kinds := zzsym.Param("kinds", 3)
	if first {
		kinds = 5
	}
	o := zzObject{status: 200}
	switch zzsym.Choice(tag+"kind", kinds) {
	case 0:
		n := 1
		if first {
			n = zzsym.Choice(tag+"len", zzsym.Param("len", 3))
			o.header = zzHeaders[zzsym.Choice(tag+"header", zzsym.Param("headers", 3))]
		}
		o.body = zzsym.Bytes(tag+"body", n)
	case 1:
		o.status, o.body = 404, []byte("not found")
	case 2:
		o.status, o.body = 500, []byte("error")
	case 3:
		o.kind = 1
	case 4:
		o.kind, o.body = 2, zzsym.Bytes(tag+"body", 1)
	}
	return o
}

// zzGot is the result of a read.
type zzGot struct {
	data     []byte
	notFound bool
	failed   bool
	o        zzObject
	ok       bool
}

// VerifEdgeGet: sequences of reads through the storage adapter.
func VerifEdgeGet() {
	mode := zzsym.Choice("mode", 3)
	local := mode == 2
	zzLocal(local)
	e := &zzEdge{evicts: mode == 1}
	objs := map[string]zzObject{}
	version := 0
	e.objs = func(backend, path string) zzObject {
		k := backend + "/" + path
		o, ok := objs[k]
		if !ok {
			version++
			o = zzAnObject("o"+zzDec(int64(version)), version == 1)
			objs[k] = o
		}
		return o
	}
	e.install()
	backends := []string{"one.test", "two.test"}
	keys := []string{"ct/v1/get-sth", "tile/0/000"}
	var s *FastlyStorage
	var known map[string]zzGot
	var backend string
	fresh := func(b string) {
		backend = b
		s = &FastlyStorage{backend: backend, cache: make(map[string]*CacheEntry)}
		known = map[string]zzGot{}
	}
	fresh(backends[0])
	budget, used := s.AvailableReqs(), 0
	n := zzsym.Param("reads", 3)
	for i := 0; i < n; i++ {
		tag := "r" + zzDec(int64(i))
		if i > 0 {
			switch zzsym.Choice(tag+"then", 4) {
			case 1: // another request
				fresh(backends[0])
				used = 0
			case 2: // another log's
				fresh(backends[1])
				used = 0
			case 3: // the objects change
				objs = map[string]zzObject{}
			}
		}
		key := keys[0]
		if i > 0 {
			key = keys[zzsym.Choice(tag+"key", 2)]
		}
		if e.fails = 0; i == n-1 && !local {
			e.fails = zzsym.Choice("fails", 4)
		}
		before := e.sends
		data, notFound, err := s.Get(context.Background(), key)
		used += e.sends - before
		got := zzGot{data: data, notFound: notFound, failed: err != nil, ok: true}
		zzsym.Assert(s.AvailableReqs() <= budget-used, "C29: more requests are reported to be available than the budget leaves")
		zzsym.Assert(!got.notFound || got.failed, "C29: a read is reported both as not found and as successful")
		k := backend + "/" + key
		switch prev := known[key]; {
		case prev.ok && prev.o.kind == 0:
			zzsym.Assert(got.failed == prev.failed && got.notFound == prev.notFound, "C29: a repeated read is answered differently")
			zzsym.Assert(len(got.data) == len(prev.data) && zzsym.EqBytes(got.data, prev.data), "C29: a repeated read is answered differently")
			continue
		case e.sends > before:
			o := e.sent[k]
			got.o = o
			switch {
			case e.fails > 0 && got.failed:
				zzsym.Assert(!got.notFound || o.kind == 0 && o.status == 404, "C29: an object is reported as not found that is not")
				got.o.kind = 1
			case o.kind == 0 && o.status == 200:
				zzsym.Assert(!got.failed, "C29: an object that exists is not returned")
				zzsym.Assert(len(data) == len(o.body) && zzsym.EqBytes(data, o.body), "C29: an object is returned with other contents")
				zzsym.Reach("object")
			case o.kind == 0 && o.status == 404:
				zzsym.Assert(got.notFound, "C29: an object that does not exist is not reported as such")
				zzsym.Reach("not found")
			default:
				zzsym.Assert(got.failed && !got.notFound, "C29: an outcome other than 200 or 404 is not reported as an error")
				zzsym.Reach("error")
			}
		case e.fails > 0:
			zzsym.Assert(got.failed && !got.notFound || !got.failed && len(data) == len(e.sent[k].body) && zzsym.EqBytes(data, e.sent[k].body), "C29: an edge cache failure is not reported as an error")
			got.o.kind = 1
		default:
			// from the edge cache
			o, ok := e.sent[k]
			zzsym.Assert(ok && o.kind == 0 && o.status == 200, "C29: an object is answered that was never read")
			zzsym.Assert(!got.failed && len(data) == len(o.body) && zzsym.EqBytes(data, o.body), "C29: an object is returned with other contents")
			zzsym.Reach("cached")
		}
		known[key] = got
	}
	zzsym.Reach("end")
}

// VerifEdgeStatus: every status, read twice.
func VerifEdgeStatus() {
	mode := zzsym.Choice("mode", 3)
	zzLocal(mode == 2)
	e := &zzEdge{evicts: mode == 1}
	status := zzsym.Below("status", 1000)
	body := zzsym.Bytes("body", 2)
	if zzsym.Choice("large", 2) == 1 {
		status, body = 200, zzLarge("large", []int{70001, 1<<20 + 5}[zzsym.Choice("largelen", 2)])
	}
	e.objs = func(backend, path string) zzObject { return zzObject{status: status, body: body} }
	e.install()
	s := &FastlyStorage{backend: "one.test", cache: make(map[string]*CacheEntry)}
	budget := s.AvailableReqs()
	for i := 0; i < 2; i++ {
		data, notFound, err := s.Get(context.Background(), "ct/v1/get-sth")
		zzsym.Assert(zzsym.Iff(err == nil, status == 200), "C29: an outcome other than 200 or 404 is not reported as an error")
		zzsym.Assert(zzsym.Iff(notFound, status == 404), "C29: not found is reported for something else than 404")
		if err == nil {
			zzsym.Assert(len(data) == len(body) && zzsym.EqBytes(data, body), "C29: an object is returned with other contents")
		}
		zzsym.Assert(s.AvailableReqs() <= budget-e.sends, "C29: more requests are reported to be available than the budget leaves")
	}
	zzsym.Reach("status")
}

// VerifEdgeBackend: an unusable backend name fails the read.
func VerifEdgeBackend() {
	zzLocal(zzsym.Choice("local", 2) == 1)
	e := &zzEdge{evicts: zzsym.Choice("evicts", 2) == 1}
	e.objs = func(backend, path string) zzObject { return zzObject{kind: 1} }
	e.install()
	backend := []string{"", "a b", "one.test:x", "%zz", "[::1", "\x7f"}[zzsym.Choice("backend", 6)]
	s := &FastlyStorage{backend: backend, cache: make(map[string]*CacheEntry)}
	budget := s.AvailableReqs()
	for i := 0; i < 2; i++ {
		data, notFound, err := s.Get(context.Background(), "ct/v1/get-sth")
		zzsym.Assert(data == nil && !notFound && err != nil, "C29: an outcome other than 200 or 404 is not reported as an error")
		zzsym.Assert(s.AvailableReqs() <= budget-e.sends, "C29: more requests are reported to be available than the budget leaves")
	}
	zzsym.Reach("unusable backend")
}

// zzEdgeWriter is the answer of the edge deployment.
type zzEdgeWriter struct {
	code int
	hdr  fsthttp.Header
	body []byte
}

func (r *zzEdgeWriter) Header() fsthttp.Header { return r.hdr }
func (r *zzEdgeWriter) WriteHeader(c int) {
	if r.code == 0 {
		r.code = c
	}
}
func (r *zzEdgeWriter) Write(b []byte) (int, error) {
	if r.code == 0 {
		r.code = 200
	}
	r.body = append(r.body, b...)
	return len(b), nil
}
func (r *zzEdgeWriter) Close() error                 { return nil }
func (r *zzEdgeWriter) SetManualFramingMode(bool)    {}
func (r *zzEdgeWriter) Append(o io.ReadCloser) error { return nil }

func (e *zzEdge) request(method, host, path string, kv ...string) *zzEdgeWriter {
	u := &url.URL{Scheme: "https", Host: host, Path: path}
	q := map[string][]string{}
	for i := 0; i+1 < len(kv); i += 2 {
		q[kv[i]] = append(q[kv[i]], kv[i+1])
	}
	zzsym.SetQuery(u, q)
	w := &zzEdgeWriter{hdr: fsthttp.NewHeader()}
	FastlyServe(context.Background(), w, &fsthttp.Request{Method: method, URL: u, Host: host, Header: fsthttp.NewHeader(), Body: io.NopCloser(bytes.NewReader(nil))})
	return w
}

var zzEdgePaths = []string{"/ct/v1/get-sth-consistency", "/ct/v1/get-proof-by-hash", "/ct/v1/get-entries", "/ct/v1/get-entry-and-proof"}

// VerifEdgeRefuse: methods, hosts and paths that are not served.
func VerifEdgeRefuse() {
	zzLocal(zzsym.Choice("local", 2) == 1)
	e := &zzEdge{hosts: map[string]string{"log.test": "one.test", "other.test": "two.test"}}
	e.objs = func(backend, path string) zzObject { return zzObject{status: 200, body: []byte("x")} }
	e.install()
	path := zzEdgePaths[zzsym.Choice("path", len(zzEdgePaths))]
	host, method := "log.test", "GET"
	want := 404
	switch zzsym.Choice("kind", 6) {
	case 0:
		method = []string{"POST", "PUT", "PATCH", "DELETE"}[zzsym.Choice("method", 4)]
		host = []string{host, "unknown.test"}[zzsym.Choice("host", 2)]
		path = []string{path, "/ct/v1/add-chain", "/"}[zzsym.Choice("other", 3)]
		want = 405
		zzsym.Reach("method")
	case 1:
		host = []string{"", "unknown.test", "LOG.TEST", "log.test.", "log.test:443", "log.tes", "one.test"}[zzsym.Choice("host", 7)]
		zzsym.Reach("host")
	case 2:
		path = []string{"", "/", "/ct/v1/", "/ct/v1/get-sth", "/ct/v1/get-roots", "/ct/v1/add-chain", "/tile/0/000", "/ct/v2/get-entries", "ct/v1/get-entries", "/ct/v1/get-entries/x"}[zzsym.Choice("other", 10)]
		zzsym.Reach("path")
	case 3: // one byte changed
		b := []byte(path)
		i := zzsym.Choice("at", 40)
		if i >= len(b) {
			return
		}
		d := zzsym.U8("byte")
		zzsym.Assume(d != b[i])
		b[i] = d
		path = string(b)
		zzsym.Reach("path")
	case 4: // one byte more or less
		i := zzsym.Choice("at", 40)
		if i >= len(path) {
			return
		}
		if zzsym.Choice("more", 2) == 1 {
			path = path[:i+1] + zzsym.Str("byte", 1) + path[i+1:]
		} else {
			path = path[:i] + path[i+1:]
		}
		zzsym.Reach("path")
	case 5:
		e.openFails = true
		want = 500
	}
	r := e.request(method, host, path, "start", "0", "end", "0", "first", "1", "second", "1")
	zzsym.Assert(r.code == want, "C29: a request that is not served is not refused with "+zzDec(int64(want)))
	zzsym.Assert(e.sends == 0 && e.touched == 0, "C29: the storage is accessed for a request that is not served")
}

// VerifEdgeServe: requests are answered as the monitor answers them.
func VerifEdgeServe() {
	zzLocal(zzsym.Choice("local", 2) == 1)
	n := []int64{5, 1}[zzsym.Choice("tree", zzsym.Param("trees", 1))]
	w := zzNewWorld(n)
	w.expand(0)
	for i := int64(0); i < n; i++ {
		e := &zzref.Entry{Index: uint64(i), Timestamp: 1700000000000 + uint64(i), Cert: []byte{1, byte(i)}}
		if i == 0 {
			e.Cert = zzsym.Bytes("cert", 2)
			e.Chain = [][]byte{{7, 7}}
		}
		if i == 3 {
			e.Precert, e.PreCert, e.Chain = true, []byte{2, 3}, [][]byte{{8}, {7, 7}}
			e.KeyHash = zzsym.Hash("keyhash")
		}
		w.entries[i] = e
	}
	i := []int{0, 3}[zzsym.Choice("entry", 2)] % int(n)
	h := w.entries[int64(i)].LeafHash()
	w.record(h, int64(i))
	w.publish(true, nil)
	// one object is missing or cannot be read
	fp := zzsym.Digest([]byte{7, 7})
	objects := []string{"none", "ct/v1/get-sth", zzref.TilePath(0, 0, int(n)), zzref.TilePath(-1, 0, int(n)), "int/hashes/" + zzref.HashPath(h[:16], w.mask), "issuer/" + zzref.Hex(fp[:])}
	bad := objects[zzsym.Choice("object", len(objects))]
	how := 0
	if bad != "none" {
		how = zzsym.Choice("how", 3)
		if err := os.RemoveAll(w.dir + "/" + bad); err != nil {
			panic(err)
		}
		if how > 0 {
			w.broken(bad)
		}
	}
	e := &zzEdge{hosts: map[string]string{"log.test": "one.test"}}
	e.objs = func(backend, path string) zzObject {
		zzsym.Assert(backend == "one.test", "C29: another backend is asked")
		b, err := os.ReadFile(w.dir + "/" + path)
		switch {
		case bad == path && how == 1:
			return zzObject{status: 500}
		case bad == path && how == 2:
			return zzObject{kind: 1}
		case errors.Is(err, os.ErrNotExist):
			return zzObject{status: 404}
		case err != nil:
			return zzObject{status: 500}
		}
		return zzObject{status: 200, body: b}
	}
	e.install()
	var kv []string
	endpoint := zzsym.Choice("endpoint", 4)
	switch endpoint {
	case 0:
		kv = []string{"first", zzDec([]int64{0, 1, n - 1, n, n + 1}[zzsym.Choice("first", 5)]), "second", zzDec(n)}
	case 1:
		b := h[:]
		if zzsym.Choice("unknown", 2) == 1 {
			b = make([]byte, 32)
			b[0] = 0xa7
		}
		kv = []string{"hash", zzB64(b), "tree_size", zzDec(n)}
	case 2:
		start := []int{0, 2, int(n)}[zzsym.Choice("start", 3)]
		kv = []string{"start", zzDec(int64(start)), "end", zzDec(int64(start + zzsym.Choice("more", 2)*3))}
	case 3:
		kv = []string{"leaf_index", zzDec(int64(i)), "tree_size", zzDec(n)}
	}
	path := zzEdgePaths[endpoint]
	want := w.get(path, kv...)
	for round := 0; round < 2; round++ {
		r := e.request("GET", "log.test", path, kv...)
		zzsym.Assert(r.code == want.code, "C29: the edge deployment answers with another status than the monitor")
		if want.code == 200 {
			zzsym.Assert(len(r.body) == len(want.body) && zzsym.EqBytes(r.body, want.body), "C29: the edge deployment answers with another body than the monitor")
			zzsym.Reach("answered")
		} else {
			zzsym.Reach("refused")
		}
	}
}
