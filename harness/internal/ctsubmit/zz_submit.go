package ctsubmit

import (
	"bytes"
	"encoding/base64"
	"encoding/json"
	"io"
	"net/http"
	"strconv"
	"strings"
	"time"

	"itko.dev/internal/zzref"
	"itko.dev/internal/zzsym"
)

//gosym:model math/rand.Intn
func zzIntn(n int) int { return n / 2 }

// zzResp is what a client gets: header fields set after the status is written are not sent.
type zzResp struct {
	code int
	set  http.Header
	hdr  http.Header
	body []byte
}

func (r *zzResp) Header() http.Header {
	if r.set == nil {
		r.set = http.Header{}
	}
	return r.set
}
func (r *zzResp) WriteHeader(c int) {
	if r.code == 0 {
		r.code = c
		for k, v := range r.set {
			r.hdr[k] = v
		}
	}
}
func (r *zzResp) Write(b []byte) (int, error) {
	r.WriteHeader(200)
	r.body = append(r.body, b...)
	return len(b), nil
}

// zzPKI is a small certificate hierarchy.
type zzPKI struct {
	root, other, inter, cross, inter2, notCA, pre, preRoot, preCross *zzCert
}

const zz2030 = 1893456000

func zzNewPKI() *zzPKI {
	p := &zzPKI{}
	p.root = &zzCert{name: 1, key: 1, ca: true, notAfter: zz2030}
	p.other = &zzCert{name: 2, key: 2, ca: true, notAfter: zz2030} // another accepted root
	p.inter = &zzCert{name: 3, key: 3, ca: true, issuer: p.root, notAfter: zz2030}
	p.cross = &zzCert{name: 3, key: 3, ca: true, issuer: p.other, notAfter: zz2030} // the same CA certified by the other root
	p.inter2 = &zzCert{name: 4, key: 4, ca: true, issuer: p.root, notAfter: zz2030}
	p.notCA = &zzCert{name: 5, key: 5, issuer: p.root, notAfter: zz2030}
	p.pre = &zzCert{name: 6, key: 6, ca: true, ctEKU: true, issuer: p.inter, notAfter: zz2030}
	p.preRoot = &zzCert{name: 7, key: 7, ca: true, ctEKU: true, issuer: p.root, notAfter: zz2030}
	p.preCross = &zzCert{name: 6, key: 6, ca: true, ctEKU: true, issuer: p.inter2, notAfter: zz2030} // the same signing key certified by another CA
	return p
}

func (p *zzPKI) roots() []*zzCert { return []*zzCert{p.root, p.other} }

// leaf is an end-entity certificate.
func (p *zzPKI) leaf(issuer *zzCert, precert bool, content []byte) *zzCert {
	c := &zzCert{name: 20, key: 20, issuer: issuer, notAfter: zz2030, content: content}
	if precert {
		c.poison = 1
	}
	return c
}

// zzWant is the entry that a submission with this validated chain (root included) must lead to.
func zzWant(full []*zzCert) *zzref.Entry {
	e := &zzref.Entry{Cert: full[0].raw()}
	for _, c := range full[1:] {
		e.Chain = append(e.Chain, c.raw())
	}
	if full[0].poison == 1 {
		ca := full[1]
		if ca.ctEKU {
			ca = full[2]
		}
		e.Precert, e.PreCert, e.Cert, e.KeyHash = true, full[0].raw(), full[0].tbs(ca), zzsym.Digest(ca.spki())
	}
	return e
}

// live prepares the log for submissions through HTTP.
func (z *zzLog) live(flushMs int, roots []*zzCert) {
	z.flush = flushMs
	var l []string
	for _, c := range roots {
		l = append(l, `"`+base64.StdEncoding.EncodeToString(c.raw())+`"`)
	}
	zzsym.FsPut(z.dir+"/ct/v1/get-roots", func() []byte { return []byte(`{"certificates":[` + strings.Join(l, ",") + `]}`) })
}

func (z *zzLog) up() bool {
	if err := z.load(); err != nil {
		zzsym.Fail("C28: the log does not start from its published tree")
		return false
	}
	z.taking, z.known = true, z.pub
	z.pending = nil
	z.start()
	return true
}

// down stops the process.
func (z *zzLog) down() {
	z.end()
	if zzsym.Symbolic() {
		zzsym.Settle()
	} else {
		time.Sleep(300 * time.Millisecond)
	}
	z.t.Truncate(z.pub)
	z.checked = z.pub
	z.fault = zzFault{}
	z.restarted = true
}

// take accounts for the entries a data tile adds; called from onSet.
func (z *zzLog) take(s zzref.Span, data []byte) {
	for i := max(z.known, s.N<<8); i < s.N<<8+int64(s.W); i++ {
		if len(z.pending) == 0 {
			zzsym.Fail("C08,C23: an entry is added to the log that should not be")
			return
		}
		off := len(z.t.DataTile(s.N, int(i-s.N<<8)))
		zzsym.Assert(len(data) >= off+8, "C07: the entry in the data tile is not the one submitted")
		k := 0
		for j, e := range z.pending {
			// which of the entries under way it is (they differ in their certificates)
			c := *e
			c.Index = uint64(i)
			if l := c.TileLeaf()[8:]; len(z.pending) > 1 && len(l) <= len(data)-off-8 && bytes.Equal(l, data[off+8:off+8+len(l)]) {
				k = j
			}
		}
		e := z.pending[k]
		z.pending = append(z.pending[:k:k], z.pending[k+1:]...)
		for _, b := range data[off : off+8] {
			e.Timestamp = e.Timestamp<<8 | uint64(b)
		}
		e.Index = uint64(i)
		now := uint64(time.Now().UnixMilli())
		zzsym.Assert(e.Timestamp >= z.since && e.Timestamp <= now, "C06,C07: the entry's timestamp is not the time at which it was sequenced")
		z.t.Expand(i)
		z.t.Entries[i] = e
		z.known = i + 1
		h := z.t.Hash(0, i)
		all := zzsym.IsSym(h[:])
		for j := range z.t.Entries {
			if j != i && (all || z.arb[j]) {
				g := z.t.Hash(0, j)
				zzsym.Assume(zzsym.Not(zzsym.EqBytes(h[:16], g[:16])))
			}
		}
		z.arb[i] = all
	}
	if s.N<<8+int64(s.W) > z.pub {
		want := z.t.Bytes(s)
		zzsym.Assert(len(data) == len(want) && zzsym.EqBytes(data, want), "C07: the entry in the data tile is not the one submitted")
	}
}

func zzBody(chain [][]byte) []byte {
	var l []string
	for _, c := range chain {
		l = append(l, `"`+base64.StdEncoding.EncodeToString(c)+`"`)
	}
	return []byte(`{"chain":[` + strings.Join(l, ",") + `]}`)
}

func zzRaws(chain []*zzCert) (out [][]byte) {
	for _, c := range chain {
		out = append(out, c.raw())
	}
	return
}

// post makes a request.
func (z *zzLog) post(endpoint string, body []byte) *zzResp {
	req, err := http.NewRequest("POST", "http://log.test"+endpoint, nil)
	if err != nil {
		panic(err)
	}
	req.Body = io.NopCloser(bytes.NewReader(body))
	r := &zzResp{hdr: http.Header{}}
	z.h.ServeHTTP(r, req)
	return r
}

func zzEndpoint(pre bool) string {
	if pre {
		return "/ct/v1/add-pre-chain"
	}
	return "/ct/v1/add-chain"
}

// expect announces the entries that may be added next.
func (z *zzLog) expect(es ...*zzref.Entry) {
	z.mu.Lock()
	defer z.mu.Unlock()
	z.pending = nil
	for _, e := range es {
		if e != nil {
			z.pending = append(z.pending, e)
		}
	}
	z.since = uint64(time.Now().UnixMilli())
}

// submit submits a chain that leads to the entry e if it is not a duplicate.
func (z *zzLog) submit(e *zzref.Entry, chain ...*zzCert) *zzResp {
	// 16-byte prefixes of distinct certificates' hashes differ
	raw := chain[0].raw()
	fp := zzsym.Digest(raw)
	for _, o := range z.leaves {
		g := zzsym.Digest(o)
		if len(o) != len(raw) || !zzsym.IsSym(o) && !zzsym.IsSym(raw) && !bytes.Equal(o, raw) {
			zzsym.Assume(zzsym.Not(zzsym.EqBytes(fp[:16], g[:16])))
		} else {
			zzsym.Assume(zzsym.Any(zzsym.EqBytes(o, raw), zzsym.Not(zzsym.EqBytes(fp[:16], g[:16]))))
		}
	}
	z.leaves = append(z.leaves, raw)
	z.expect(e)
	return z.post(zzEndpoint(chain[0].poison != 0), zzBody(zzRaws(chain)))
}

// checkSCT checks an answer that must be an SCT for e, which must be published.
func (z *zzLog) checkSCT(r *zzResp, e *zzref.Entry) {
	zzsym.Assert(r.code == 200, "C07: a well-formed submission is refused")
	z.mu.Lock()
	zzsym.Assert(z.t.Entries[int64(e.Index)] == e, "C01: an SCT is issued for an entry that is not logged")
	zzsym.Assert(z.pub > int64(e.Index), "C01: an SCT is issued for an entry that no stored tree head covers")
	zzsym.Assert(z.cp > int64(e.Index), "C01: an SCT is issued for an entry that no stored checkpoint covers")
	z.mu.Unlock()
	var p struct {
		Version   *int    `json:"sct_version"`
		ID        []byte  `json:"id"`
		Timestamp *uint64 `json:"timestamp"`
		Ext       string  `json:"extensions"`
		Sig       []byte  `json:"signature"`
	}
	err := json.Unmarshal(r.body, &p)
	zzsym.Assert(err == nil && p.Version != nil && p.Timestamp != nil, "C07: the answer is not well-formed")
	zzsym.Assert(*p.Version == 0, "C07: the SCT's version is not 1")
	zzsym.Assert(base64.StdEncoding.EncodeToString(p.ID) == zzLogID(0), "C07: the SCT does not carry the log's ID")
	zzsym.Assert(*p.Timestamp == e.Timestamp, "C07: the SCT's timestamp is not the entry's")
	ext, err := base64.StdEncoding.DecodeString(p.Ext)
	zzsym.Assert(err == nil && zzsym.EqBytes(ext, zzref.Cat([]byte{0, 0, 5}, zzref.BE(e.Index, 5))), "C07: the SCT's extensions do not give the entry's index")
	zzsym.Assert(zzVerify(0, e.Leaf(), p.Sig), "C07: the SCT's signature does not verify over the entry logged")
}

// same checks the answer to a repeated submission.
func (z *zzLog) same(r *zzResp, first *zzResp, e *zzref.Entry) {
	zzsym.Assert(r.code == 200, "C08: a repeated submission is refused")
	zzsym.Assert(len(r.body) == len(first.body) && zzsym.EqBytes(r.body, first.body), "C08: a repeated submission is answered with another SCT")
	z.checkSCT(r, e)
}

// quiet lets pass what is under way and checks that no entry has been added.
func (z *zzLog) quiet() {
	n := z.known
	zzsym.Advance(2*z.flush + 50)
	z.mu.Lock()
	defer z.mu.Unlock()
	zzsym.Assert(z.known == n && z.pub <= n, "C08,C23: an entry is added to the log that should not be")
}

// zzForms are chains and what validation makes of them.
type zzForm struct {
	name  string
	given []*zzCert
	full  []*zzCert
}

func (p *zzPKI) forms(content []byte) []zzForm {
	l := p.leaf(p.inter, false, content)
	d := p.leaf(p.root, false, content)
	q := p.leaf(p.inter, true, content)
	qr := p.leaf(p.root, true, content)
	qp := p.leaf(p.pre, true, content)
	qpr := p.leaf(p.preRoot, true, content)
	// issued by a CA that is below another one
	sub := &zzCert{name: 8, key: 8, ca: true, issuer: p.inter, notAfter: zz2030}
	deep := p.leaf(sub, true, content)
	// issued (not as a precertificate) by a precertificate signing CA
	lp := p.leaf(p.pre, false, content)
	lax := p.leaf(p.inter, true, content)
	lax.lax = true
	return []zzForm{
		{"certificate", []*zzCert{l, p.inter}, []*zzCert{l, p.inter, p.root}},
		{"precertificate", []*zzCert{q, p.inter}, []*zzCert{q, p.inter, p.root}},
		{"precertificate, signing certificate", []*zzCert{qp, p.pre, p.inter}, []*zzCert{qp, p.pre, p.inter, p.root}},
		{"precertificate, signing certificate of the root", []*zzCert{qpr, p.preRoot}, []*zzCert{qpr, p.preRoot, p.root}},
		{"precertificate of the root", []*zzCert{qr}, []*zzCert{qr, p.root}},
		{"certificate, with root", []*zzCert{l, p.inter, p.root}, []*zzCert{l, p.inter, p.root}},
		{"certificate of the root", []*zzCert{d}, []*zzCert{d, p.root}},
		{"certificate, other path", []*zzCert{l, p.cross}, []*zzCert{l, p.cross, p.other}},
		{"precertificate, two intermediates", []*zzCert{deep, sub, p.inter, p.root}, []*zzCert{deep, sub, p.inter, p.root}},
		{"certificate below a signing certificate", []*zzCert{lp, p.pre, p.inter}, []*zzCert{lp, p.pre, p.inter, p.root}},
		{"root", []*zzCert{p.root}, []*zzCert{p.root}},
		{"precertificate, signing certificate, with root", []*zzCert{qpr, p.preRoot, p.root}, []*zzCert{qpr, p.preRoot, p.root}},
		{"precertificate with a tolerated error", []*zzCert{lax, p.inter}, []*zzCert{lax, p.inter, p.root}},
	}
}

func zzLetter(i int) []byte { return []byte(strconv.Itoa(i)) }

// VerifSubmit: submissions of every form, one after the other.
func VerifSubmit() {
	zzsym.VirtualClock(60)
	_, n := zzSize(zzSizesList, 2)
	z := zzNewLog(n)
	p := zzNewPKI()
	z.live(100, p.roots())
	if !z.up() {
		return
	}
	forms := p.forms(nil)
	first := zzsym.Choice("form", zzsym.Param("forms", len(forms)))
	for k := 0; k < zzsym.Param("submissions", 2); k++ {
		content := zzLetter(k)
		if k == zzsym.Param("arbitrary", 0) {
			content = zzsym.Bytes("content", 2)
		}
		f := p.forms(content)[(first+k)%len(forms)]
		if f.name == "root" && k > 0 {
			continue
		}
		e := zzWant(f.full)
		z.checkSCT(z.submit(e, f.given...), e)
		zzsym.Reach(f.name)
	}
}

// zzNear makes b's fingerprint share the first half byte with a's but not the first byte,
// and come before or after it, with the second byte greater or less.
func zzNear(how int, a, b *zzCert) {
	near := func() bool {
		x, y := zzsym.Digest(a.raw()), zzsym.Digest(b.raw())
		less, less2 := x[0] < y[0], x[1] < y[1]
		return zzsym.All(x[0]>>4 == y[0]>>4, x[0] != y[0], x[1] != y[1], zzsym.Iff(less, how&1 == 1), zzsym.Iff(less2, how&2 == 2))
	}
	if zzsym.Symbolic() {
		zzsym.Assume(near())
		return
	}
	for i := 0; i < 100000 && !near(); i++ {
		b.der = nil // signed anew
	}
}

// VerifResubmit: a submission, others, maybe a restart, and the submission again, maybe with another chain.
// Some of the time the next certificate's fingerprint is in the first one's index bucket, at a given place.
func VerifResubmit() {
	zzsym.VirtualClock(60)
	z := zzNewLog([]int64{0, 255, 1, 256}[zzsym.Choice("size", zzsym.Param("sizes", 1))])
	z.mask = []int{1, 2, 5}[zzsym.Choice("mask", zzsym.Param("masks", 1))]
	p := zzNewPKI()
	z.live(100, p.roots())
	if !z.up() {
		return
	}
	content := []byte("c")
	if zzsym.Param("arbitrary", 1) == 1 {
		content = zzsym.Bytes("content", 1)
	}
	forms := p.forms(content)
	k := zzsym.Choice("form", zzsym.Param("forms", len(forms)))
	f := forms[k]
	e := zzWant(f.full)
	first := z.submit(e, f.given...)
	z.checkSCT(first, e)
	others := zzsym.Choice("others", zzsym.Param("others", 2)+1)
	restart := zzsym.Choice("restart", 3)
	near := 0
	if others > 0 && restart == 0 && z.mask == 1 {
		near = zzsym.Choice("near", 4)
	}
	for i := 0; i <= others; i++ {
		if restart == 1 && i == 0 || restart == 2 && i == others {
			z.down()
			if !z.up() {
				return
			}
		}
		if i < others {
			g := p.forms([]byte{byte('x'), byte(i)})[(k+1+i)%10]
			if c := f.full[0]; i == 0 && c.poison == 0 && c.issuer != nil {
				// a certificate that differs in its signature only
				d := *c
				d.resigned, d.der = true, nil
				g = zzForm{f.name, append([]*zzCert{&d}, f.given[1:]...), append([]*zzCert{&d}, f.full[1:]...)}
			}
			if near > 0 && i == 0 {
				zzNear(near, f.full[0], g.full[0])
				zzsym.Reach("near")
			}
			w := zzWant(g.full)
			z.checkSCT(z.submit(w, g.given...), w)
		}
	}
	given := f.given
	again := 0
	if near == 0 {
		again = zzsym.Choice("again", 3)
	}
	switch again {
	case 1:
		// the other way to write the chain
		given = f.full
		if len(f.given) == len(f.full) && len(f.full) > 1 {
			given = f.full[:len(f.full)-1]
		}
	case 2:
		if f.full[0].issuer != p.inter || len(f.full) != 3 {
			zzsym.Stop()
			return
		}
		// another path
		given = []*zzCert{f.full[0], p.cross, p.other}
		if f.full[1] == p.cross {
			given = []*zzCert{f.full[0], p.inter, p.root}
		}
	}
	for i := 0; i < 2; i++ {
		z.same(z.submit(nil, given...), first, e)
	}
	z.quiet()
	zzsym.Reach("again")
}

// VerifResubmitIssuer: a precertificate whose signing certificate has been issued by two CAs stands for two entries.
func VerifResubmitIssuer() {
	zzsym.VirtualClock(60)
	z := zzNewLog(1)
	p := zzNewPKI()
	z.live(100, p.roots())
	if !z.up() {
		return
	}
	q := p.leaf(p.pre, true, zzsym.Bytes("content", 1))
	a, b := []*zzCert{q, p.pre, p.inter, p.root}, []*zzCert{q, p.preCross, p.inter2, p.root}
	if zzsym.Choice("swap", 2) == 1 {
		a, b = b, a
	}
	ea, eb := zzWant(a), zzWant(b)
	ra := z.submit(ea, a...)
	z.checkSCT(ra, ea)
	if zzsym.Choice("restart", 2) == 1 {
		z.down()
		if !z.up() {
			return
		}
	}
	rb := z.submit(eb, b...)
	z.checkSCT(rb, eb)
	z.same(z.submit(nil, a...), ra, ea)
	z.same(z.submit(nil, b...), rb, eb)
	z.quiet()
	zzsym.Reach("other issuer")
}

// VerifLookupFault: the duplicate check of a repeated submission fails.
func VerifLookupFault() {
	zzsym.VirtualClock(60)
	z := zzNewLog(1)
	p := zzNewPKI()
	z.live(100, p.roots())
	if !z.up() {
		return
	}
	f := p.forms(zzsym.Bytes("content", 1))[zzsym.Choice("form", zzsym.Param("forms", 3))]
	e := zzWant(f.full)
	first := z.submit(e, f.given...)
	z.checkSCT(first, e)
	z.mu.Lock()
	z.fault = zzFault{lose: func(op, class string) bool { return op == "lookup" }}
	z.mu.Unlock()
	if r := z.submit(nil, f.given...); r.code == 200 {
		z.same(r, first, e)
	} else {
		zzsym.Assert(r.code >= 400 && r.code < 600, "C08: a repeated submission is answered neither with its SCT nor with an error")
	}
	z.mu.Lock()
	z.fault = zzFault{}
	z.mu.Unlock()
	z.quiet()
	z.same(z.submit(nil, f.given...), first, e)
	zzsym.Reach("lookup failed")
}

// VerifSubmitFault: a storage operation fails while an entry is published; nobody may get an SCT for an entry that is not.
func VerifSubmitFault() {
	zzsym.VirtualClock(60)
	z := zzNewLog([]int64{1, 255, 0}[zzsym.Choice("size", zzsym.Param("sizes", 2))])
	p := zzNewPKI()
	z.live(100, p.roots())
	f := zzFaults[zzsym.Choice("fault", len(zzFaults))]
	z.fault = zzFault{op: f.op, class: f.class, crash: zzsym.Choice("crash", 2) == 1}
	if f.op == "set" {
		z.fault.applied = zzsym.Choice("applied", 2) == 1
	}
	if zzsym.Choice("delay", zzsym.Param("delays", 2)) == 1 {
		z.delay = f.class
	}
	if !z.up() {
		return
	}
	forms := p.forms(zzsym.Bytes("content", 1))
	g := forms[zzsym.Choice("form", zzsym.Param("forms", 2))]
	e := zzWant(g.full)
	for i := 0; i < 2; i++ {
		pend := e
		if i > 0 {
			pend = nil
		}
		r := z.submit(pend, g.given...)
		z.mu.Lock()
		failed, logged := z.failed, z.known > 0 && z.t.Entries[int64(e.Index)] == e && z.pub > int64(e.Index) && z.cp > int64(e.Index)
		z.mu.Unlock()
		if r.code == 200 {
			zzsym.Assert(i > 0 || !failed, "C01: an SCT is issued although publishing its entry failed")
			zzsym.Assert(logged, "C01: an SCT is issued for an entry that is not published")
			z.checkSCT(r, e)
			zzsym.Reach("published")
		} else {
			zzsym.Assert(r.code >= 400 && r.code < 600 && !bytes.Contains(r.body, []byte("sct_version")), "C01: a failed submission is not answered with an error")
			zzsym.Reach("refused")
		}
	}
}

// VerifRefuseBody: requests that are no submissions.
func VerifRefuseBody() {
	zzsym.VirtualClock(60)
	z := zzNewLog(1)
	p := zzNewPKI()
	z.live(100, p.roots())
	if !z.up() {
		return
	}
	l := p.leaf(p.inter, false, []byte("c"))
	good := string(zzBody(zzRaws([]*zzCert{l, p.inter})))
	bodies := []string{"", "null", "{}", "[]", `"x"`, "1", `{"chain":null}`, `{"chain":[]}`, `{"chain":[""]}`, `{"chain":[null]}`, `{"chain":"x"}`, `{"chain":{}}`, `{"chain":[1]}`,
		`{"chain":["AA"]}`, `{"chain":["!"]}`, `{"chain":["QUJD"]}`, `{"chain":["QUJD","QUJD"]}`, `{"chain":[["QUJD"]]}`, good + "x", good[:len(good)-1], good[1:], strings.Replace(good, "chain", "chian", 1),
		good[:len(good)-2] + `,"QUJD"]}`, good[:len(good)-2] + `,""]}`, good[:len(good)-2] + `,null]}`}
	var body []byte
	k := zzsym.Choice("body", len(bodies)+zzsym.Param("len", 0)+1)
	switch {
	case k < len(bodies):
		body = []byte(bodies[k])
	case k == len(bodies):
		body = make([]byte, 128*1024+1)
		for i := range body {
			body[i] = ' '
		}
		copy(body, good)
	default:
		body = zzsym.Bytes("body", k-len(bodies))
	}
	pre := zzsym.Choice("endpoint", 2) == 1
	r := z.post(zzEndpoint(pre), body)
	zzsym.Assert(r.code >= 400 && r.code < 600, "C23: a malformed submission is not refused")
	z.quiet()
	zzsym.Reach("refused")
	// the log is unharmed
	e := zzWant([]*zzCert{l, p.inter, p.root})
	z.checkSCT(z.submit(e, l, p.inter), e)
}

// VerifRefuseChain: chains that must not be accepted.
func VerifRefuseChain() {
	zzsym.VirtualClock(60)
	z := zzNewLog(1)
	p := zzNewPKI()
	content := zzsym.Bytes("content", 1)
	l, q := p.leaf(p.inter, false, content), p.leaf(p.inter, true, content)
	if zzsym.Choice("kind", 2) == 1 {
		l, q = q, l
	}
	alter := func(f func(c *zzCert)) *zzCert {
		c := *l
		f(&c)
		c.der = nil
		return &c
	}
	unknown := &zzCert{name: 30, key: 30, ca: true, notAfter: zz2030}
	impostor := &zzCert{name: p.root.name, key: 31, ca: true, notAfter: zz2030} // an unknown root with a known name
	uinter := &zzCert{name: 32, key: 32, ca: true, issuer: unknown, notAfter: zz2030}
	iinter := &zzCert{name: 33, key: 33, ca: true, issuer: impostor, notAfter: zz2030}
	finter := &zzCert{name: 34, key: 34, ca: true, issuer: p.root, forged: true, notAfter: zz2030}
	poisonRoot := &zzCert{name: 35, key: 35, ca: true, poison: 1, notAfter: zz2030}
	ekuRoot := &zzCert{name: 36, key: 36, ca: true, ctEKU: true, notAfter: zz2030}
	by := func(i *zzCert) *zzCert { return alter(func(c *zzCert) { c.issuer = i }) }
	cases := [][]*zzCert{
		{l}, {l, p.root}, {l, p.inter2}, {l, p.inter2, p.root}, {p.inter, l}, {l, p.root, p.inter}, {l, p.inter, p.inter2}, {l, p.inter, p.inter}, {l, l, p.inter}, {l, p.inter, p.root, p.root},
		{l, p.inter, p.other}, {l, p.inter, p.root, p.other}, {l, p.inter2, p.inter},
		{by(uinter), uinter}, {by(uinter), uinter, unknown}, {by(iinter), iinter}, {by(iinter), iinter, impostor}, {by(iinter), iinter, p.root}, {by(unknown)}, {unknown}, {impostor},
		{by(finter), finter}, {by(p.notCA), p.notCA}, {alter(func(c *zzCert) { c.forged = true }), p.inter},
		{alter(func(c *zzCert) { c.poison = 2 }), p.inter}, {alter(func(c *zzCert) { c.poison = 3 }), p.inter},
		{poisonRoot},
		{alter(func(c *zzCert) { c.poison = 1; c.issuer = ekuRoot })}, {alter(func(c *zzCert) { c.poison = 1; c.issuer = ekuRoot }), ekuRoot},
	}
	z.live(100, append(p.roots(), poisonRoot, ekuRoot))
	if !z.up() {
		return
	}
	chain := cases[zzsym.Choice("case", len(cases))]
	for _, pre := range []bool{zzsym.Choice("endpoint", 2) == 1} {
		r := z.post(zzEndpoint(pre), zzBody(zzRaws(chain)))
		zzsym.Assert(r.code >= 400 && r.code < 600, "C23: a submission with a bad chain is not refused")
		z.quiet()
	}
	zzsym.Reach("refused")
}

// zzWindows are windows of expiry times: as configured, the first and the last second inside.
var zzWindows = []struct {
	text        [2]string
	first, last uint32
}{
	{[2]string{"2020-01-01T00:00:00Z", "2040-01-01T00:00:00Z"}, 1577836800, 2208988799},
	{[2]string{"2021-02-03T04:05:06+01:00", "2039-12-31T23:59:58.5Z"}, 1612321506, 2208988798},
	{[2]string{"2022-06-30T23:29:31.25-11:30", "2022-07-01T10:59:33Z"}, 1656673172, 1656673172},
	{[2]string{"2016-12-31T23:59:59.999999999Z", "2027-07-01T00:00:00+23:59"}, 1483228800, 1814313659},
}

// VerifRefuseKind: the leaf must be of the endpoint's kind and expire in the log's window.
func VerifRefuseKind() {
	zzsym.VirtualClock(60)
	z := zzNewLog(1)
	p := zzNewPKI()
	win := zzWindows[zzsym.Choice("window", len(zzWindows))]
	z.window = win.text
	z.live(100, p.roots())
	if !z.up() {
		return
	}
	forms := p.forms([]byte("c"))
	f := forms[zzsym.Choice("form", zzsym.Param("forms", len(forms)))]
	leaf := f.full[0]
	fixed := f.name == "root"
	if !fixed {
		leaf.notAfter = uint32(zzsym.U64("notAfter"))
		leaf.der = nil
	}
	e := zzWant(f.full)
	z.expect(e)
	pre := zzsym.Choice("endpoint", 2) == 1
	r := z.post(zzEndpoint(pre), zzBody(zzRaws(f.given)))
	inside := leaf.notAfter >= win.first && leaf.notAfter <= win.last
	if pre == (leaf.poison == 1) && inside {
		z.checkSCT(r, e)
		zzsym.Reach("accepted")
		return
	}
	zzsym.Assert(r.code >= 400 && r.code < 600, "C23: a certificate of the wrong kind or outside the log's window is not refused")
	z.mu.Lock()
	z.pending = nil
	z.mu.Unlock()
	z.quiet()
	zzsym.Assert(z.pub == 1, "C23: a certificate of the wrong kind or outside the log's window is added to the log")
	zzsym.Reach("refused")
}

func zzRetryAfter(r *zzResp) bool {
	n, err := strconv.Atoi(r.hdr.Get("Retry-After"))
	return err == nil && n > 0
}

// VerifSlow: a submission is not sequenced in time.
func VerifSlow() {
	zzsym.VirtualClock(200)
	z := zzNewLog(1)
	p := zzNewPKI()
	stuck := zzsym.Choice("stuck", 2) == 1
	if stuck {
		z.live(100, p.roots())
	} else {
		z.live(6000, p.roots())
	}
	if !z.up() {
		return
	}
	f := p.forms(zzsym.Bytes("content", 1))[zzsym.Choice("form", 2)]
	e := zzWant(f.full)
	if stuck {
		z.hang = make(chan struct{})
	}
	r := z.submit(e, f.given...)
	zzsym.Assert(r.code == 503, "C23: a submission that is not sequenced in time is not answered with 503")
	zzsym.Assert(zzRetryAfter(r), "C23: a 503 answer has no Retry-After header")
	if !stuck {
		zzsym.Advance(2000)
		r := z.submit(nil, f.given...)
		z.checkSCT(r, e)
		// the client that has given up is in nobody's way
		g := p.forms([]byte("another"))[0]
		e = zzWant(g.full)
		r = z.submit(e, g.given...)
		zzsym.Advance(2000)
		r = z.submit(nil, g.given...)
		zzsym.Assert(r.code == 200, "C06,C23: after a submission that was not sequenced in time, later ones are not sequenced any more")
		z.checkSCT(r, e)
		zzsym.Reach("later")
		return
	}
	// nothing is taken from the queue any more
	zzsym.Advance(500)
	full := false
	for i := 0; i < 5000 && !full; i++ {
		select {
		case z.l.stageZeroData.stageOneTx <- UnsequencedEntryWithReturnPath{}:
		default:
			full = true
		}
	}
	done := make(chan *zzResp, 1)
	g := p.forms([]byte("other"))[0]
	go func() { done <- z.submit(nil, g.given...) }()
	zzsym.Advance(6500)
	select {
	case r = <-done:
		zzsym.Assert(r.code == 503 && zzRetryAfter(r), "C23: a submission that is not sequenced in time is not answered with 503")
		zzsym.Reach("queue full")
	default:
		zzsym.Fail("C23: a submission that is not sequenced in time is not answered")
	}
}

// VerifSubmitConcurrent: submissions that are under way at the same time.
func VerifSubmitConcurrent() {
	zzsym.VirtualClock(60)
	z := zzNewLog([]int64{0, 255, 254, 1}[zzsym.Choice("size", zzsym.Param("sizes", 2))])
	p := zzNewPKI()
	z.live(100, p.roots())
	if z.delay = zzDelayClasses()[zzsym.Choice("delay", zzsym.Param("delays", 1))]; !z.up() {
		return
	}
	n := len(p.forms(nil))
	first := zzsym.Choice("form", n)
	var fs []zzForm
	var es []*zzref.Entry
	for k := 0; k < zzsym.Param("submissions", 3); k++ {
		f := p.forms(zzLetter(k))[(first+k*zzsym.Param("stride", 1))%n]
		if f.name == "root" {
			continue
		}
		fs, es = append(fs, f), append(es, zzWant(f.full))
	}
	for round := 0; round < 2; round++ {
		if round == 0 {
			z.expect(es...)
		} else {
			z.expect()
		}
		rs := make([]*zzResp, len(fs))
		done := make(chan int, len(fs))
		for i, f := range fs {
			go func() {
				rs[i] = z.post(zzEndpoint(f.full[0].poison != 0), zzBody(zzRaws(f.given)))
				done <- i
			}()
		}
		for range fs {
			<-done
		}
		for i := range fs {
			z.checkSCT(rs[i], es[i])
		}
	}
	zzsym.Reach("concurrent")
}
