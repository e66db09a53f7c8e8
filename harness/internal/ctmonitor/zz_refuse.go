package ctmonitor

import (
	"encoding/base64"
	"strings"

	"itko.dev/internal/zzref"
	"itko.dev/internal/zzsym"
)

// zzParam is a request parameter: its text and the number a strict reader finds in it.
type zzParam struct {
	present bool
	text    string
	isNum   bool
	num     int64
}

// zzNumber makes a parameter arbitrary: absent, any 64-bit number, any short text or an unusual text.
func zzNumber(name string) zzParam {
	odd := []string{"9223372036854775808", "-9223372036854775809", "18446744073709551616", "99999999999999999999999999", "1e3", "0x1", "0b1", "1_0", "1.0", "+1", "-0", "007", "\u0661", "1,1", "NaN", "true"}
	switch n := zzsym.Choice(name+"kind", 4); n {
	case 0:
		return zzParam{}
	case 1:
		v := zzsym.I64(name)
		return zzParam{present: true, text: zzDec(v), isNum: true, num: v}
	case 2:
		s := zzsym.Str(name, zzsym.Choice(name+"len", zzsym.Param("len", 2)+1))
		p := zzParam{present: true, text: s, isNum: true}
		d := s
		neg := len(s) > 1 && zzsym.Any(s[0] == '-', s[0] == '+')
		if neg {
			neg = s[0] == '-'
			d = s[1:]
		}
		if len(d) == 0 {
			p.isNum = false
		}
		for i := 0; i < len(d); i++ {
			if zzsym.Any(d[i] < '0', d[i] > '9') {
				p.isNum = false
				return p
			}
			p.num = p.num*10 + int64(d[i]-'0')
		}
		if neg {
			p.num = -p.num
		}
		return p
	default:
		s := odd[zzsym.Choice(name+"odd", len(odd))]
		p := zzParam{present: true, text: s}
		switch s {
		case "+1":
			p.isNum, p.num = true, 1
		case "-0":
			p.isNum, p.num = true, 0
		case "007":
			p.isNum, p.num = true, 7
		}
		return p
	}
}

func zzArgs(names []string, ps []zzParam) []string {
	var kv []string
	for i, p := range ps {
		if p.present {
			kv = append(kv, names[i], p.text)
		}
	}
	return kv
}

func zzRefused(r *zzResp, msg string) {
	zzsym.Assert(r.code >= 400 && r.code < 600, msg)
	zzsym.Reach("refused")
}

func zzTiny(size int64) *zzWorld {
	w := zzNewWorld(size)
	if size > 0 {
		w.expand(0)
	}
	for i := int64(0); i < size; i++ {
		w.entries[i] = &zzref.Entry{Index: uint64(i), Timestamp: uint64(i + 5), Cert: []byte{byte(i), 7}, Precert: i == 1, PreCert: []byte{byte(i)}, Chain: [][]byte{{9, byte(i)}, {8}}}
		h := w.entries[i].LeafHash()
		w.record(h, i)
	}
	return w
}

// VerifRefuseNumbers: C21, all combinations of two numeric parameters.
func VerifRefuseNumbers() {
	size := []int64{3, 0, 1}[zzsym.Choice("size", zzsym.Param("sizes", 2))]
	w := zzTiny(size)
	w.publish(true, nil)
	which := zzsym.Choice("endpoint", 3)
	ep := []string{"/ct/v1/get-entries", "/ct/v1/get-sth-consistency", "/ct/v1/get-entry-and-proof"}[which]
	names := [][]string{{"start", "end"}, {"first", "second"}, {"leaf_index", "tree_size"}}[which]
	ps := []zzParam{zzNumber("a"), zzNumber("b")}
	r := w.get(ep, zzArgs(names, ps)...)
	zzsym.Assert(r.code != 0, "C21: no answer")
	if !ps[0].present || !ps[1].present || !ps[0].isNum || !ps[1].isNum {
		zzRefused(r, "C21: missing or unparsable parameters are answered")
		return
	}
	a, b := ps[0].num, ps[1].num
	bad := zzsym.Any(a < 0, b < 0, a > b)
	switch which {
	case 0:
		bad = zzsym.Any(bad, a >= size)
	case 1:
		bad = zzsym.Any(bad, b > size)
	case 2:
		bad = zzsym.Any(bad, a >= b, b > size)
	}
	if r.ok() {
		zzsym.Assert(zzsym.Not(bad), "C21: a request outside the tree is answered")
		zzsym.Reach("answered")
	} else {
		zzRefused(r, "C21: neither answered nor refused")
	}
}

// VerifRefuseHash: C21, arbitrary hash parameters of get-proof-by-hash.
func VerifRefuseHash() {
	size := []int64{3, 0}[zzsym.Choice("size", 2)]
	w := zzTiny(size)
	kind := zzsym.Choice("hashkind", 4)
	if kind == 3 && zzsym.Choice("leftover", 2) == 1 {
		// a record of an entry that was never published
		w.record(zzsym.Hash("unpublished"), size)
	}
	w.publish(true, nil)
	var kv []string
	wellFormed := false
	switch kind {
	case 0:
	case 1: // too short or not base64 at all
		s := zzsym.Str("hash", zzsym.Choice("hashlen", zzsym.Param("hlen", 4)+1))
		kv = append(kv, "hash", s)
	case 2: // wrong length
		n := []int{31, 33, 16, 64, 0, 48}[zzsym.Choice("hashbytes", 6)]
		kv = append(kv, "hash", zzB64(zzsym.Bytes("hash", n)))
	case 3: // not in the log
		h := zzsym.Hash("hash")
		kv = append(kv, "hash", zzB64(h[:]))
		wellFormed = true
	}
	p := zzParam{present: true, text: zzDec(size), isNum: true, num: size}
	if wellFormed {
		p = zzNumber("tree_size")
	}
	if p.present {
		kv = append(kv, "tree_size", p.text)
	}
	r := w.get("/ct/v1/get-proof-by-hash", kv...)
	zzsym.Assert(r.code != 0, "C21: no answer")
	if r.ok() {
		zzsym.Reach("answered")
		zzsym.Assert(wellFormed && p.present && p.isNum, "C21: a malformed request is answered")
		zzsym.Assert(zzsym.All(p.num > 0, p.num <= size), "C21: a tree size outside the tree is answered")
		return
	}
	zzRefused(r, "C21: neither answered nor refused")
}

// VerifFaults: C21, one object missing or unreadable.
func VerifFaults() {
	size := []int64{3, 258, 514}[zzsym.Choice("size", zzsym.Param("sizes", 2))]
	focus := []int64{0, 1, size - 2, size - 1}[zzsym.Choice("focus", 4)]
	w := zzFocused(size, focus)
	h := w.entries[focus].LeafHash()
	reqs := [][]string{
		{"/ct/v1/get-sth"},
		{"/ct/v1/get-roots"},
		{"/ct/v1/get-entries", "start", zzDec(focus), "end", zzDec(focus)},
		{"/ct/v1/get-entries", "start", "0", "end", zzDec(size - 1)},
		{"/ct/v1/get-sth-consistency", "first", zzDec(focus), "second", zzDec(size)},
		{"/ct/v1/get-sth-consistency", "first", "0", "second", "0"},
		{"/ct/v1/get-proof-by-hash", "hash", zzB64(h[:]), "tree_size", zzDec(size)},
		{"/ct/v1/get-entry-and-proof", "leaf_index", zzDec(focus), "tree_size", zzDec(size)},
	}
	req := reqs[zzsym.Choice("request", len(reqs))]
	// the undisturbed answer
	var keys []string
	w.publish(true, func(key string) bool { keys = append(keys, key); return false })
	good := w.get(req[0], req[1:]...)
	if !good.ok() {
		zzsym.Reach("always refused")
		return
	}
	bad := keys[zzsym.Choice("object", len(keys))]
	w.publish(true, func(key string) bool { return key == bad })
	at := bad
	switch zzsym.Choice("fault", 3) {
	case 1:
		w.broken(bad)
	case 2:
		// the full tile that may have taken the place of a partial one
		full, _, ok := strings.Cut(bad, ".p/")
		if !ok {
			zzsym.Stop()
			return
		}
		w.publish(true, nil)
		w.broken(full)
		at = full
	}
	// the document of the moment is to be read for every request, whatever was read before
	check := func(r *zzResp) {
		zzsym.Assert(r.code != 0, "C21: no answer")
		if r.ok() {
			zzsym.Assert(r.code == good.code && zzsym.EqBytes(r.body, good.body), "C21: a storage failure or missing object results in a different success answer")
			zzsym.Reach("not needed")
			return
		}
		zzRefused(r, "C21: neither answered nor refused")
	}
	r := w.get(req[0], req[1:]...)
	check(r)
	// repaired, a moment later
	zzsym.FsRemove(w.dir + "/" + at)
	if at == bad {
		w.store(true, func(key string) bool { return key != bad })
	}
	again := w.get(req[0], req[1:]...)
	zzsym.Assert(again.code == good.code && zzsym.EqBytes(again.body, good.body), "C17,C18,C19,C20,C21,C22: after a storage failure is over, a request is not answered as before")
	// and again
	zzsym.FsRemove(w.dir + "/" + at)
	w.broken(at)
	last := w.get(req[0], req[1:]...)
	check(last)
	if bad == "ct/v1/get-sth" || bad == "ct/v1/get-roots" {
		// these change, so what was read earlier is no answer
		zzsym.Assert(r.ok() || !last.ok(), "C21: a storage failure is answered with what was read before")
	}
	zzsym.Reach("recovered")
}

func zzB64(b []byte) string {
	return zzStd.EncodeToString(b)
}

// zzFocused: a tree with one entry of interest.
func zzFocused(size, focus int64) *zzWorld {
	w := zzNewWorld(size)
	for i := int64(0); i < size; i += 256 {
		w.expand(i)
	}
	w.entries[focus] = &zzref.Entry{Index: uint64(focus), Timestamp: 77, Cert: []byte{1, 2}, Precert: focus == 1, PreCert: []byte{3}, Chain: [][]byte{{9}, {8, 8}}}
	w.record(w.entries[focus].LeafHash(), focus)
	return w
}

// zzDoc: a document of one of several sizes; the large ones are arbitrary at the beginning, at the end and around 64 KiB.
func zzDoc() []byte {
	n := []int{1, 0, 3, 40, 700, 70001, 1<<20 + 5, 1<<21 + 5}[zzsym.Choice("len", zzsym.Param("lens", 7))]
	if n <= 700 {
		return zzsym.Bytes("doc", n)
	}
	return zzLarge("doc", n)
}

// zzLarge: n bytes, arbitrary at the beginning, at the end and around 64 KiB.
func zzLarge(tag string, n int) []byte {
	b := make([]byte, n)
	for i := range b {
		b[i] = byte(i*7 + i>>8)
	}
	for i, at := range []int{0, 1<<16 - 8, n - 16} {
		copy(b[at:], zzsym.Bytes(tag+string(rune('0'+i)), 16))
	}
	return b
}

// VerifRelay: C22, get-sth and get-roots.
func VerifRelay() {
	w := zzNewWorld(0)
	w.dir = zzsym.TempDir()
	ep := []string{"ct/v1/get-sth", "ct/v1/get-roots"}[zzsym.Choice("endpoint", 2)]
	other := "ct/v1/get-roots"
	if ep == other {
		other = "ct/v1/get-sth"
	}
	doc := zzDoc()
	w.putBytes(other, []byte("other"))
	fault := 0
	if len(doc) <= 700 {
		fault = zzsym.Choice("fault", 3)
	}
	switch fault {
	case 0:
		w.putBytes(ep, doc)
	case 2:
		w.broken(ep)
	}
	w.start(w.dir, "")
	var kv []string
	if len(doc) <= 700 && zzsym.Choice("query", 2) == 1 {
		kv = []string{"x", "1"}
	}
	r := w.get("/"+ep, kv...)
	if fault != 0 {
		zzRefused(r, "C22: an unreadable document is answered with success")
		return
	}
	zzsym.Reach("relayed")
	zzsym.Assert(r.code == 200, "C22: a stored document is not served")
	zzsym.Assert(zzsym.EqBytes(r.body, doc), "C22: the document is not relayed byte for byte")
	// a new version is served as soon as it is stored
	doc2 := zzsym.Bytes("doc2", 2)
	w.putBytes(ep, doc2)
	r = w.get("/"+ep, kv...)
	zzsym.Assert(r.code == 200 && zzsym.EqBytes(r.body, doc2), "C22: a newer document is not relayed")
}

var zzEndpoints = []string{"get-sth", "get-roots", "get-sth-consistency", "get-entries", "get-proof-by-hash", "get-entry-and-proof"}

// VerifRouting: C22, methods and paths.
func VerifRouting() {
	w := zzTiny(3)
	w.publish(true, nil)
	h := w.entries[1].LeafHash()
	args := [][]string{nil, nil, {"first", "1", "second", "3"}, {"start", "0", "end", "2"}, {"hash", zzB64(h[:]), "tree_size", "3"}, {"leaf_index", "1", "tree_size", "3"}}
	i := zzsym.Choice("endpoint", len(zzEndpoints))
	path := "/ct/v1/" + zzEndpoints[i]
	switch zzsym.Choice("kind", 4) {
	case 0:
		r := w.get(path, args[i]...)
		zzsym.Assert(r.code == 200, "C22: the endpoint is not reachable under its path")
		zzsym.Reach("reachable")
	case 1:
		m := []string{"POST", "PUT", "DELETE", "PATCH", "OPTIONS", "TRACE", "CONNECT", "get", "GETT"}[zzsym.Choice("method", 9)]
		r := w.do(m, path, args[i]...)
		zzsym.Assert(r.code >= 400, "C22: the endpoint is reachable under another method")
		zzsym.Reach("other method")
	case 2:
		p := []string{path + "/", path + "/x", "/ct/v2/" + zzEndpoints[i], "/" + zzEndpoints[i], "/ct/" + zzEndpoints[i], "/ct/v1/add-chain", "/ct/v1/", "/", "/ct/v1/checkpoint", "/ct/V1/" + zzEndpoints[i]}[zzsym.Choice("path", 10)]
		r := w.get(p, args[i]...)
		zzsym.Assert(!r.ok(), "C22: an endpoint is reachable under another path")
		zzsym.Reach("other path")
	case 3: // one arbitrary byte in the path
		at := 1 + zzsym.Choice("at", len(path)-1)
		c := zzsym.U8("char")
		zzsym.Assume(zzsym.Any(zzsym.All(c >= 'a', c <= 'z'), c == '-'))
		zzsym.Assume(c != path[at])
		r := w.get(path[:at]+string([]byte{c})+path[at+1:], args[i]...)
		zzsym.Assert(!r.ok(), "C22: an endpoint is reachable under another path")
		zzsym.Reach("other path")
	}
}

var zzStd = base64.StdEncoding
