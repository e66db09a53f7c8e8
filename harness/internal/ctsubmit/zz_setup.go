package ctsubmit

import (
	"context"
	"encoding/json"
	"encoding/pem"
	"errors"
	"strconv"
	"time"

	consul "github.com/hashicorp/consul/api"

	"itko.dev/internal/zzref"
	"itko.dev/internal/zzsym"
)

type zzSetupFunc func(ctx context.Context, consulAddress, consulKey, rootCerts, signingKey string, gc GlobalConfig)

//gosym:model k8s.io/klog/v2.Warningf
func zzKlog(format string, args ...interface{}) {}

//gosym:model (*github.com/hashicorp/consul/api.KV).put
func zzConsulPut(kv *consul.KV, key string, params map[string]string, body []byte, q *consul.WriteOptions) (bool, *consul.WriteMeta, error) {
	if len(key) > 0 && key[0] == '/' {
		return false, nil, errors.New("zz: invalid key")
	}
	cas, has := params["cas"]
	done, err := zzCons.put(key, body, has, cas)
	if err != nil {
		return false, nil, err
	}
	return done, &consul.WriteMeta{}, nil
}

// put stores a value; with check-and-set only if the stored one is the one referred to.
func (c *zzConsul) put(key string, value []byte, check bool, cas string) (bool, error) {
	if c.putFails {
		return false, errors.New("zz: consul failure")
	}
	if key != "x/config" {
		return true, nil
	}
	if check && (c.noConfig && cas != "0" || !c.noConfig && cas != strconv.Itoa(5+c.puts)) {
		return false, nil
	}
	c.noConfig, c.config = false, value
	c.puts++
	if c.onPut != nil {
		c.onPut()
	}
	return true, nil
}

// zzSetupLog is a log that is yet to be set up.
func zzSetupLog() (*zzLog, GlobalConfig) {
	z := &zzLog{top: zzsym.TempDir(), mask: 2, flush: 3600000, t: zzref.NewTree(), returned: map[uint64]bool{}, arb: map[int64]bool{}}
	z.dir = z.top + "/log"
	zzPutFile(z.etc("key.pem"), zzKeyPEM(0))
	z.cons = &zzConsul{noConfig: true}
	gc := GlobalConfig{Name: zzOrigin, KeyPath: z.etc("key.pem"), LogID: zzLogID(0), MaskSize: z.mask, RootDirectory: z.dir,
		NotAfterStart: "2020-01-01T00:00:00Z", NotAfterLimit: "2040-01-01T00:00:00Z", FlushMs: 100}
	if zzsym.Param("s3", 0) == 1 {
		z.s3 = zzServeS3(z.dir)
		gc.RootDirectory = ""
		gc.S3Region, gc.S3Bucket, gc.S3EndpointUrl, gc.S3StaticCredentialUserName, gc.S3StaticCredentialPassword = zzRegion, zzBucket, z.s3.addr, zzUser, zzPass
	}
	return z, gc
}

// etc is a file that is not part of the log.
func (z *zzLog) etc(name string) string { return z.top + "/" + name }

func zzPEM(typ string, b []byte) []byte {
	return pem.EncodeToMemory(&pem.Block{Type: typ, Bytes: b})
}

// ZZSetup sets up a log and uses it.
func ZZSetup(setup zzSetupFunc, monitor func(dir string, mask int) func(endpoint string, kv ...string) (int, []byte)) {
	zzsym.VirtualClock(60)
	z, gc := zzSetupLog()
	p := zzNewPKI()
	p.root.content = zzsym.Bytes("content", 1)
	lax := &zzCert{name: 9, key: 9, ca: true, notAfter: zz2030, lax: true}
	name := &zzCert{name: p.root.name, key: 8, ca: true, notAfter: zz2030}                           // the same subject, another key
	key := &zzCert{name: 8, key: p.root.key, ca: true, notAfter: zz2030}                             // the same key, another subject
	again := &zzCert{name: p.root.name, key: p.root.key, ca: true, notAfter: zz2030, resigned: true} // the same certificate, signed again
	again.content = p.root.content
	reissued := &zzCert{name: p.root.name, key: p.root.key, ca: true, notAfter: zz2030 + 1, version: 1}
	lists := [][]*zzCert{{p.root}, {p.root, p.other}, {p.other, p.root}, {p.root, p.root}, {p.other, p.root, p.other, p.inter}, {p.root, lax}, {lax, p.root},
		{p.root, name}, {name, p.root}, {p.root, key}, {p.root, again}, {p.root, reissued}}
	list := lists[zzsym.Choice("roots", len(lists))]
	var file []byte
	layout := zzsym.Choice("layout", 4)
	var want []*zzCert
	for _, c := range list {
		b := zzPEM("CERTIFICATE", c.raw())
		switch layout {
		case 1:
			b = zzref.Cat([]byte("\n# a comment\nsubject=CN\n"), b)
		case 2:
			b = zzref.Cat(zzPEM("PUBLIC KEY", []byte("key")), b, []byte("\n"))
		case 3: // other line ends
			var o []byte
			for _, x := range b {
				if x == '\n' {
					o = append(o, '\r')
				}
				o = append(o, x)
			}
			b = o
		}
		file = append(file, b...)
		dup := false
		for _, w := range want {
			dup = dup || w == c
		}
		if !dup {
			want = append(want, c)
		}
	}
	zzPutFile(z.etc("roots.pem"), file)
	if zzsym.Choice("config", 2) == 1 {
		gc.Name, gc.ListenAddress, gc.MaskSize, gc.FlushMs = "log \"\\ \u00e9<&>", ":0", 5, 250
		gc.NotAfterStart, gc.NotAfterLimit = "2021-02-03T04:05:06+01:00", "2039-01-01T00:00:00.5Z"
		if z.s3 == nil {
			gc.S3Bucket, gc.S3Region, gc.S3EndpointUrl, gc.S3StaticCredentialUserName, gc.S3StaticCredentialPassword = "bucket", "region", "http://end", "user", "pass"
		}
	}
	there := zzsym.Choice("there", 3)
	switch there {
	case 1: // the directory exists
		zzsym.FsPut(z.dir+"/ct/v1/other", func() []byte { return nil })
	case 2: // so do the roots and the configuration of an earlier attempt
		old := GlobalConfig{Name: "old", MaskSize: 3, FlushMs: 100}
		b, err := json.Marshal(old)
		if err != nil {
			panic(err)
		}
		z.cons.noConfig, z.cons.config = false, b
		b, err = json.Marshal(map[string][][]byte{"certificates": {p.inter2.raw()}})
		if err != nil {
			panic(err)
		}
		zzPutFile(z.dir+"/ct/v1/get-roots", b)
	}
	before := uint64(time.Now().UnixMilli())
	addr := z.cons.serve()
	run := func() { setup(context.Background(), addr, "x", z.etc("roots.pem"), z.etc("key.pem"), gc) }
	if there == 2 {
		run() // it may refuse to replace them
		zzsym.Reach("replaced")
	} else {
		zzsym.MustReturn("C30: set-up fails although nothing is wrong", run)
	}
	after := uint64(time.Now().UnixMilli())

	// what is stored
	zzsym.Assert(!z.cons.noConfig && z.cons.puts > 0, "C30: set-up does not store the configuration")
	var got GlobalConfig
	err := json.Unmarshal(z.cons.config, &got)
	zzsym.Assert(err == nil && got == gc, "C30: set-up stores another configuration")
	b, ok := z.peek("ct/v1/get-roots")
	var res struct {
		Certificates [][]byte `json:"certificates"`
	}
	zzsym.Assert(ok && json.Unmarshal(b, &res) == nil, "C30: set-up does not store the roots")
	zzsym.Assert(len(res.Certificates) == len(want), "C30: set-up stores other roots")
	for i, c := range want {
		zzsym.Assert(len(res.Certificates[i]) == len(c.raw()) && zzsym.EqBytes(res.Certificates[i], c.raw()), "C30: set-up stores other roots")
	}
	sth, ok := z.peek("ct/v1/get-sth")
	zzsym.Assert(ok, "C30: set-up does not store a tree head")
	var h struct {
		Size *int64  `json:"tree_size"`
		Time *uint64 `json:"timestamp"`
		Root []byte  `json:"sha256_root_hash"`
		Sig  []byte  `json:"tree_head_signature"`
	}
	err = json.Unmarshal(sth, &h)
	zzsym.Assert(err == nil && h.Size != nil && h.Time != nil, "C30: the tree head is not well-formed")
	empty := z.t.Root(0)
	zzsym.Assert(*h.Size == 0 && len(h.Root) == 32 && zzsym.EqBytes(h.Root, empty[:]), "C30: the tree head is not that of an empty log")
	zzsym.Assert(*h.Time >= before && *h.Time <= after, "C30: the tree head is not dated when it is made")
	zzsym.Assert(zzVerify(0, zzTreeHead(0, *h.Time, h.Root), h.Sig), "C30: the tree head's signature does not verify")
	zzsym.Reach("set up")

	// the monitor serves it
	get := monitor(z.dir, gc.MaskSize)
	code, body := get("/ct/v1/get-sth")
	zzsym.Assert(code == 200 && len(body) == len(sth) && zzsym.EqBytes(body, sth), "C30: the monitor does not serve the new log's tree head")
	code, body = get("/ct/v1/get-roots")
	zzsym.Assert(code == 200 && len(body) == len(b) && zzsym.EqBytes(body, b), "C30: the monitor does not serve the new log's roots")
	zzsym.Reach("monitored")

	// the server starts
	addr = z.cons.serve()
	l, err := LoadLog(context.Background(), "x", addr)
	zzsym.Assert(err == nil, "C30: the server does not start from the new log")
	zzsym.Assert(l.startingSequence == 0 && l.stageTwoData.treeSize == 0, "C30: the server does not start at index 0")
	zzsym.Assert(l.config == gc && l.stageTwoData.checkpointOrigin == gc.Name, "C30: the server does not use the configuration")
	rs := l.stageZeroData.roots.RawCertificates()
	zzsym.Assert(len(rs) == len(want), "C30: the server does not accept the roots given")
	for i, c := range want {
		zzsym.Assert(zzsym.EqBytes(rs[i].Raw, c.raw()), "C30: the server does not accept the roots given")
	}
	zzsym.Reach("started")
	if gc.Name != zzOrigin || zzsym.Choice("use", 2) == 0 {
		return
	}
	z.adopt(l)
	z.flush = 100
	z.taking = true
	z.start()
	var e *zzref.Entry
	var r *zzResp
	leaf := p.leaf(want[0], false, []byte("c"))
	e = zzWant([]*zzCert{leaf, want[0]})
	r = z.submit(e, leaf, want[0])
	zzsym.Assert(r.code == 200 && e.Index == 0 && z.pub == 1, "C30: the new log does not take its first entry at index 0")
	z.checkSCT(r, e)
	zzsym.Reach("used")
}

// ZZSetupFails makes one of set-up's steps fail.
func ZZSetupFails(setup zzSetupFunc) {
	z, gc := zzSetupLog()
	p := zzNewPKI()
	good := zzPEM("CERTIFICATE", p.root.raw())
	roots, key := z.etc("roots.pem"), z.etc("key.pem")
	zzPutFile(roots, good)
	why := ""
	switch zzsym.Choice("kind", 5) {
	case 0:
		why = "the roots cannot be read"
		switch zzsym.Choice("form", 3) {
		case 0:
			zzRemove(roots)
		case 1:
			zzUnreadable(roots)
		case 2:
			forms := [][]byte{{}, []byte("x"), p.root.raw(), zzPEM("PUBLIC KEY", []byte("key")), good[:len(good)/2], good[1:]}
			zzPutFile(roots, forms[zzsym.Choice("roots", len(forms))])
		}
	case 1:
		why = "one of the roots is not a certificate"
		bad := [][]byte{{}, {0x30}, []byte("x"), p.root.raw()[1:], []byte("0123456789abcdef")}
		b := zzPEM("CERTIFICATE", bad[zzsym.Choice("form", len(bad))])
		if zzsym.Choice("first", 2) == 1 {
			zzPutFile(roots, zzref.Cat(b, good))
		} else {
			zzPutFile(roots, zzref.Cat(good, b))
		}
	case 2:
		why = "the configuration cannot be stored"
		z.cons.putFails = true
	case 3:
		why = "the key cannot be read"
		switch zzsym.Choice("form", 3) {
		case 0:
			zzRemove(key)
		case 1:
			zzUnreadable(key)
		case 2:
			k := zzKeyPEM(0)
			forms := [][]byte{{}, []byte("x"), k[1:], k[:len(k)/2], zzPEM("EC PRIVATE KEY", nil), zzPEM("EC PRIVATE KEY", []byte{0x4b}), zzPEM("EC PRIVATE KEY", []byte("0123456789abcdef"))}
			zzPutFile(key, forms[zzsym.Choice("key", len(forms))])
		}
	case 4:
		why = "an object cannot be stored"
		if z.s3 != nil {
			object := []string{"get-sth", "get-roots"}[zzsym.Choice("object", 2)]
			kind := []int{zzS3Status, zzS3Refuse, zzS3Lost}[zzsym.Choice("failure", 3)]
			status := []int{403, 500}[zzsym.Choice("status", 2)]
			z.s3.fault = func(method, key string) (int, int) {
				if key == "ct/v1/"+object {
					return kind, status
				}
				return zzS3OK, 0
			}
			break
		}
		switch zzsym.Choice("form", 6) {
		case 4:
			zzsym.FsLimit(50)
		case 5: // after the roots
			z.cons.onPut = func() { zzsym.FsLimit(50) }
		case 0: // the log's directory is a file
			zzPutFile(z.dir, []byte("x"))
		case 1:
			zzPutFile(z.dir+"/ct", []byte("x"))
		case 2:
			zzPutFile(z.dir+"/ct/v1", []byte("x"))
		case 3: // the object is a directory that is not empty
			zzPutFile(z.dir+"/ct/v1/"+[]string{"get-sth", "get-roots"}[zzsym.Choice("object", 2)]+"/x", []byte("x"))
		}
	}
	zzsym.Reach(why)
	addr := z.cons.serve()
	setup(context.Background(), addr, "x", roots, key, gc)
	zzsym.Fail("C30: set-up reports success although " + why)
}
