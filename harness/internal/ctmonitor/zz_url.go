package ctmonitor

import (
	"bytes"
	"errors"
	"io"
	"net"
	"net/http"
	"os"
	"strconv"

	"itko.dev/internal/zzsym"
)

// zzAnswer is what the object store answers to one request.
type zzAnswer struct {
	fail   bool // connection failure
	code   int
	body   []byte
	broken bool // the connection breaks after the body so far
}

var zzBackend func(path string) zzAnswer

type zzBody struct {
	r      *bytes.Reader
	broken bool
}

func (b *zzBody) Read(p []byte) (int, error) {
	n, err := b.r.Read(p)
	if err == io.EOF && b.broken {
		err = io.ErrUnexpectedEOF
	}
	return n, err
}

func (b *zzBody) Close() error { return nil }

//gosym:model (*net/http.Client).Do
func zzDo(c *http.Client, req *http.Request) (*http.Response, error) {
	if req.Method != "GET" {
		zzsym.Fail("C22: an object is not read with GET")
	}
	a := zzBackend(req.URL.Path)
	if a.fail {
		return nil, errors.New("connection refused")
	}
	return &http.Response{StatusCode: a.code, Status: "status", Header: http.Header{}, Body: &zzBody{bytes.NewReader(a.body), a.broken}, ContentLength: -1, Request: req}, nil
}

// zzServe makes the backend reachable and returns its address.
func zzServe(backend func(path string) zzAnswer) string {
	zzBackend = backend
	if zzsym.Symbolic() {
		return "http://store.test/"
	}
	l, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		panic(err)
	}
	srv := &http.Server{Handler: http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {
		a := zzBackend(r.URL.Path)
		if a.fail {
			panic(http.ErrAbortHandler)
		}
		n := len(a.body)
		if a.broken {
			n++
		}
		w.Header().Set("Content-Length", strconv.Itoa(n))
		w.WriteHeader(a.code)
		w.Write(a.body)
		if a.broken {
			w.(http.Flusher).Flush()
			panic(http.ErrAbortHandler)
		}
	})}
	srv.SetKeepAlivesEnabled(false) // no transparent retries
	go srv.Serve(l)
	return "http://" + l.Addr().String() + "/"
}

func zzBadAnswer() zzAnswer {
	switch zzsym.Choice("how", 3) {
	case 0:
		return zzAnswer{fail: true}
	case 1:
		code := zzsym.Int("code")
		zzsym.Assume(zzsym.All(code > 200, code < 600, zzsym.Any(code < 300, code > 399), code != 204))
		zzsym.Assume(zzsym.All(code != 408, code != 401, code != 421, code != 407))
		return zzAnswer{code: code, body: zzsym.Bytes("errorbody", zzsym.Choice("errorlen", 2)*3)}
	default:
		return zzAnswer{code: 200, body: nil, broken: true}
	}
}

// VerifUrlRelay: C22 with an object store behind HTTP.
func VerifUrlRelay() {
	ep := []string{"ct/v1/get-sth", "ct/v1/get-roots"}[zzsym.Choice("endpoint", 2)]
	doc := zzDoc()
	good := len(doc) > 700 || zzsym.Choice("fault", 2) == 0
	a := zzAnswer{code: 200, body: doc}
	if !good {
		a = zzBadAnswer()
		if a.broken {
			a.body = doc
		}
	}
	w := zzNewWorld(0)
	w.start("", zzServe(func(path string) zzAnswer {
		if path != "/"+ep {
			return zzAnswer{code: 404}
		}
		return a
	}))
	r := w.get("/" + ep)
	if !good {
		zzRefused(r, "C22: an unreadable document is answered with success")
		return
	}
	zzsym.Reach("relayed")
	zzsym.Assert(r.code == 200, "C22: a stored document is not served")
	zzsym.Assert(zzsym.EqBytes(r.body, doc), "C22: the document is not relayed byte for byte")
}

// VerifUrlFaults: C21 with an object store behind HTTP, one request failing.
func VerifUrlFaults() {
	var w *zzWorld
	focus := int64(0)
	if k := zzsym.Choice("size", 3); k < 2 {
		w = zzTiny([]int64{3, 1}[k])
	} else {
		focus = 257
		w = zzFocused(258, focus)
	}
	h := w.entries[focus].LeafHash()
	reqs := [][]string{
		{"/ct/v1/get-entries", "start", "0", "end", zzDec(w.size)},
		{"/ct/v1/get-sth-consistency", "first", zzDec(max(focus, 1)), "second", zzDec(w.size)},
		{"/ct/v1/get-proof-by-hash", "hash", zzB64(h[:]), "tree_size", zzDec(w.size)},
		{"/ct/v1/get-entry-and-proof", "leaf_index", zzDec(focus), "tree_size", zzDec(w.size)},
		{"/ct/v1/get-sth"},
		{"/ct/v1/get-roots"},
	}
	req := reqs[zzsym.Choice("request", len(reqs))]
	w.publish(true, nil)
	n, at := 0, -1
	var bad zzAnswer
	w.start("", zzServe(func(path string) zzAnswer {
		n++
		b, err := os.ReadFile(w.dir + path)
		if n-1 == at {
			if bad.broken && len(b) > 0 {
				bad.body = b[:len(b)-1]
			}
			return bad
		}
		if err != nil {
			return zzAnswer{code: 404, body: []byte("no such object")}
		}
		return zzAnswer{code: 200, body: b}
	}))
	good := w.get(req[0], req[1:]...)
	zzsym.Assert(good.code == 200, "C21: a valid request is refused")
	at = zzsym.Choice("at", n)
	n = 0
	bad = zzBadAnswer()
	r := w.get(req[0], req[1:]...)
	if r.ok() {
		zzsym.Assert(r.code == good.code && zzsym.EqBytes(r.body, good.body), "C21: a storage failure results in a different success answer")
		zzsym.Reach("not needed")
		return
	}
	zzRefused(r, "C21: neither answered nor refused")
}
