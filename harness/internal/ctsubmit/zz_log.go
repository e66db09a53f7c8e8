package ctsubmit

import (
	"context"
	"crypto/ecdsa"
	"crypto/sha256"
	"encoding/base64"
	"encoding/json"
	"encoding/pem"
	"errors"
	"fmt"
	"io"
	"net"
	"net/http"
	"os"
	"strconv"
	"strings"
	"sync"
	"time"

	"github.com/google/certificate-transparency-go/x509"
	consul "github.com/hashicorp/consul/api"
	"go.opentelemetry.io/contrib/instrumentation/net/http/otelhttp"

	"itko.dev/internal/sunlight"
	"itko.dev/internal/zzref"
	"itko.dev/internal/zzsym"
)

// ---- Consul: models for the engine, a small server natively

type zzConsul struct {
	mu       sync.Mutex
	held     bool
	released bool
	noLock   bool // the lock cannot be acquired
	config   []byte
	stale    []byte // what a read that need not be consistent returns
	noConfig bool
	getFails bool
	putFails bool
	puts     int
	onPut    func()
	lost     chan struct{} // closed when the lock is lost
	onLock   func()
	gets     int
	addr     string
	broken   bool                    // the log must not be served
	early    bool                    // something was read before a lock was held
	owner    map[string]string       // the session that holds a lock
	holder   map[string]*consul.Lock // the same under the engine
	sessions int
}

var zzCons *zzConsul

// zzLock is what a lock of package consul refers to.
type zzLock struct {
	cons *zzConsul
	opts *consul.LockOptions
}

var zzLocks = map[*consul.Lock]zzLock{}

//gosym:model go.opentelemetry.io/contrib/instrumentation/net/http/otelhttp.NewHandler
func zzOtel(h http.Handler, operation string, opts ...otelhttp.Option) http.Handler { return h }

//gosym:model github.com/hashicorp/consul/api.DefaultConfig
func zzConsulDefault() *consul.Config { return &consul.Config{} }

//gosym:model github.com/hashicorp/consul/api.NewClient
func zzConsulNew(c *consul.Config) (*consul.Client, error) { return &consul.Client{}, nil }

//gosym:model (*github.com/hashicorp/consul/api.Client).LockKey
func zzConsulLockKey(c *consul.Client, key string) (*consul.Lock, error) {
	return zzConsulLockOpts(c, &consul.LockOptions{Key: key})
}

//gosym:model (*github.com/hashicorp/consul/api.Client).LockOpts
func zzConsulLockOpts(c *consul.Client, o *consul.LockOptions) (*consul.Lock, error) {
	if o.Key == "" {
		return nil, errors.New("zz: missing key")
	}
	l := &consul.Lock{}
	zzLocks[l] = zzLock{zzCons, o}
	return l, nil
}

//gosym:model (*github.com/hashicorp/consul/api.Lock).Lock
func zzConsulLock(l *consul.Lock, stop <-chan struct{}) (<-chan struct{}, error) {
	o, c := zzLocks[l].opts, zzLocks[l].cons
	if c.holder[o.Key] == l {
		return nil, consul.ErrLockHeld
	}
	select {
	case <-stop:
		return nil, nil
	default:
	}
	if c.noLock {
		return nil, errors.New("zz: no lock")
	}
	if c.holder[o.Key] != nil {
		if o.LockTryOnce {
			return nil, nil
		}
		<-stop
		return nil, nil
	}
	if c.onLock != nil {
		c.onLock()
	}
	c.holder[o.Key] = l
	c.held = true
	return c.lost, nil
}

//gosym:model (*github.com/hashicorp/consul/api.Lock).Unlock
func zzConsulUnlock(l *consul.Lock) error {
	o, c := zzLocks[l].opts, zzLocks[l].cons
	if c.holder[o.Key] != l {
		return consul.ErrLockNotHeld
	}
	delete(c.holder, o.Key)
	c.held = false
	c.released = true
	return nil
}

//gosym:model (*github.com/hashicorp/consul/api.Client).KV
func zzConsulKV(c *consul.Client) *consul.KV { return &consul.KV{} }

//gosym:model (*github.com/hashicorp/consul/api.KV).Get
func zzConsulGet(kv *consul.KV, key string, q *consul.QueryOptions) (*consul.KVPair, *consul.QueryMeta, error) {
	zzCons.gets++
	if !zzCons.held {
		zzCons.early = true
	}
	if zzCons.getFails {
		return nil, nil, errors.New("zz: consul failure")
	}
	if zzCons.noConfig || key != "x/config" {
		return nil, &consul.QueryMeta{}, nil
	}
	config := zzCons.config
	if zzCons.stale != nil && q != nil && q.AllowStale {
		config = zzCons.stale
	}
	return &consul.KVPair{Key: key, Value: config, CreateIndex: 5, ModifyIndex: uint64(5 + zzCons.puts)}, &consul.QueryMeta{}, nil
}

// serve starts the server (natively) and returns its address.
func (c *zzConsul) serve() string {
	zzCons = c
	if c.lost == nil {
		c.lost = make(chan struct{})
	}
	c.owner, c.holder = map[string]string{}, map[string]*consul.Lock{}
	if zzsym.Symbolic() {
		return "consul.test"
	}
	l, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		panic(err)
	}
	go http.Serve(l, http.HandlerFunc(c.handle))
	c.addr = l.Addr().String()
	return c.addr
}

func (c *zzConsul) count() int {
	c.mu.Lock()
	defer c.mu.Unlock()
	return c.gets
}

func (c *zzConsul) leads() bool {
	c.mu.Lock()
	defer c.mu.Unlock()
	return c.held
}

func (c *zzConsul) handle(w http.ResponseWriter, r *http.Request) {
	p := r.URL.Path
	q := r.URL.Query()
	w.Header().Set("X-Consul-Index", "5")
	if q.Has("index") {
		// wait for a change
		wait, err := time.ParseDuration(q.Get("wait"))
		if err != nil {
			wait = time.Minute
		}
		select {
		case <-r.Context().Done():
		case <-c.lost:
		case <-time.After(wait):
		}
	}
	c.mu.Lock()
	defer c.mu.Unlock()
	switch {
	case p == "/v1/session/create":
		c.sessions++
		fmt.Fprintf(w, `{"ID":"s%d"}`, c.sessions)
	case strings.HasPrefix(p, "/v1/session/renew/"):
		fmt.Fprintf(w, `[{"ID":"%s","TTL":"15s"}]`, p[len("/v1/session/renew/"):])
	case strings.HasPrefix(p, "/v1/session/"):
		io.WriteString(w, `true`)
	case r.Method == "PUT" && q.Has("acquire"):
		if c.noLock {
			http.Error(w, "no", 500)
			return
		}
		if c.owner[p] != "" {
			io.WriteString(w, `false`)
			return
		}
		if c.onLock != nil {
			c.onLock()
		}
		c.owner[p] = q.Get("acquire")
		c.held = true
		io.WriteString(w, `true`)
	case r.Method == "PUT" && q.Has("release"):
		delete(c.owner, p)
		c.held = false
		c.released = true
		io.WriteString(w, `true`)
	case r.Method == "PUT":
		b, _ := io.ReadAll(r.Body)
		done, err := c.put(strings.TrimPrefix(p, "/v1/kv/"), b, q.Has("cas"), q.Get("cas"))
		if err != nil {
			http.Error(w, "failure", 500)
			return
		}
		fmt.Fprint(w, done)
	case strings.HasSuffix(p, "/config"):
		c.gets++
		if !c.held {
			c.early = true
		}
		if c.getFails {
			http.Error(w, "failure", 500)
			return
		}
		if c.noConfig || p != "/v1/kv/x/config" {
			http.Error(w, "", 404)
			return
		}
		config := c.config
		if c.stale != nil && q.Has("stale") {
			config = c.stale
		}
		b, _ := json.Marshal([]map[string]any{{"Key": "x/config", "Value": config, "Flags": 0, "CreateIndex": 5, "ModifyIndex": 5 + c.puts}})
		w.Write(b)
	default:
		lost := false
		select {
		case <-c.lost:
			lost = true
		default:
		}
		if lost || c.owner[p] == "" {
			http.Error(w, "not found", 404)
			return
		}
		fmt.Fprintf(w, `[{"Key":"%s","Session":"%s","Flags":3304740253564472344,"Value":null,"ModifyIndex":5}]`, p[len("/v1/kv/"):], c.owner[p])
	}
}

func (c *zzConsul) isReleased() bool {
	c.mu.Lock()
	defer c.mu.Unlock()
	return c.released
}

//gosym:model github.com/google/certificate-transparency-go/x509.ParseECPrivateKey
//gosym:model crypto/x509.ParseECPrivateKey
func zzParseKey(der []byte) (*ecdsa.PrivateKey, error) {
	if len(der) != 2 || der[0] != 0x4b {
		return nil, errors.New("zz: not a key")
	}
	return zzsym.Key(int(der[1])), nil
}

func zzKeyPEM(i int) []byte {
	der := []byte{0x4b, byte(i)}
	if !zzsym.Symbolic() {
		var err error
		if der, err = x509.MarshalECPrivateKey(zzsym.Key(i)); err != nil {
			panic(err)
		}
	}
	return pem.EncodeToMemory(&pem.Block{Type: "EC PRIVATE KEY", Bytes: der})
}

func zzLogID(i int) string {
	pkix, err := x509.MarshalPKIXPublicKey(zzsym.Key(i).Public())
	if err != nil {
		panic(err)
	}
	h := sha256.Sum256(pkix)
	return base64.StdEncoding.EncodeToString(h[:])
}

// ---- a log

const zzOrigin = "log.test/itko"

type zzLog struct {
	window [2]string // of expiry times, if not the usual one
	dir  string
	top  string // the directory above, if it is the log's
	mask int
	cons *zzConsul
	t    *zzref.Tree

	mu        sync.Mutex
	pub       int64 // size of the stored tree head
	cp        int64 // size of the stored checkpoint
	pubTime   uint64
	checked   int64 // the tiles of this tree have been checked
	sths      int
	issuers   map[string]bool
	failed    bool // an operation has failed
	dead      bool // nothing may be stored any more
	round     int
	restarted bool
	fault     zzFault
	s3        *zzS3 // the object store, if there is one
	delay     string
	delaying  bool
	returned  map[uint64]bool
	arb       map[int64]bool
	submitted int

	// submissions through HTTP
	flush   int
	hang    chan struct{} // storage does not answer
	leaves  [][]byte      // leaf certificates submitted
	taking  bool
	known   int64          // entries in the data tiles
	pending []*zzref.Entry // the entries that may be next
	since   uint64         // when it was submitted

	l   *Log
	raw Bucket // unobserved
	h   http.Handler
	ctx context.Context
	end context.CancelFunc
}

// zzFault is what goes wrong: the nth operation of a kind on a class of objects (and, if crash, everything after it).
type zzFault struct {
	op, class string
	nth       int
	applied   bool // the write takes effect although it reports failure
	crash     bool
	hit       bool
	lose      func(op, class string) bool // decides for every operation
}

// zzNewLog is a log whose published tree has n entries.
func zzNewLog(n int64) *zzLog {
	z := &zzLog{dir: zzsym.TempDir(), mask: 2, flush: 3600000, t: zzref.NewTree(), pub: n, cp: n, checked: n, returned: map[uint64]bool{}, arb: map[int64]bool{}}
	put := func(key string, b []byte) { zzsym.FsPut(z.dir+"/"+key, func() []byte { return b }) }
	if n > 0 {
		z.t.RealFrom = (n - 1) &^ 255
		z.t.Expand(n - 1)
		for level := 0; n>>(8*level) > 0; level++ {
			m := n >> (8 * level)
			s := zzref.Span{Level: level, N: (m - 1) >> 8, W: int((m-1)&255 + 1)}
			zzsym.FsPut(z.dir+"/"+s.Path(), func() []byte { return z.t.Bytes(s) })
			if level == 0 {
				d := zzref.Span{Level: -1, N: s.N, W: s.W}
				zzsym.FsPut(z.dir+"/"+d.Path(), func() []byte { return z.t.Bytes(d) })
			}
		}
	}
	root := z.t.Root(n)
	sth, err := sunlight.SignTreeHead(zzsym.Key(0), uint64(n), 1500000000000, root)
	if err != nil {
		panic(err)
	}
	put("ct/v1/get-sth", sth)
	if n > 0 {
		cp, err := sunlight.SignTreeHeadCheckpoint(zzOrigin, zzsym.Key(0), n, 1500000000000, root)
		if err != nil {
			panic(err)
		}
		put("checkpoint", cp)
	}
	put("ct/v1/get-roots", []byte(`{"certificates":[]}`))
	put("key.pem", zzKeyPEM(0))
	if zzsym.Param("s3", 0) == 1 {
		z.s3 = zzServeS3(z.dir)
	}
	return z
}

func (z *zzLog) config() []byte {
	c := GlobalConfig{Name: zzOrigin, KeyPath: z.dir + "/key.pem", LogID: zzLogID(0), MaskSize: z.mask, RootDirectory: z.dir,
		NotAfterStart: "2020-01-01T00:00:00Z", NotAfterLimit: "2040-01-01T00:00:00Z", FlushMs: z.flush}
	if z.window[0] != "" {
		c.NotAfterStart, c.NotAfterLimit = z.window[0], z.window[1]
	}
	if z.s3 != nil {
		c.RootDirectory = ""
		c.S3Region, c.S3Bucket, c.S3EndpointUrl, c.S3StaticCredentialUserName, c.S3StaticCredentialPassword = zzRegion, zzBucket, z.s3.addr, zzUser, zzPass
	}
	b, err := json.Marshal(c)
	if err != nil {
		panic(err)
	}
	return b
}

// load starts a submission server from storage.
func (z *zzLog) load() error {
	z.cons = &zzConsul{config: z.config()}
	addr := z.cons.serve()
	l, err := LoadLog(context.Background(), "x", addr)
	if err != nil {
		return err
	}
	z.adopt(l)
	return nil
}

// adopt takes over a log that has been loaded.
func (z *zzLog) adopt(l *Log) {
	z.l = l
	z.failed, z.dead = false, false
	z.returned, z.submitted = map[uint64]bool{}, 0
	z.raw = l.stageTwoData.bucket
	l.stageZeroData.bucket.S = &zzObs{inner: l.stageTwoData.bucket.S, z: z, count: map[string]int{}, lookup: true}
	l.stageTwoData.bucket.S = &zzObs{inner: l.stageTwoData.bucket.S, z: z, count: map[string]int{}}
	z.ctx, z.end = context.WithCancel(context.Background())
}

func (z *zzLog) start() {
	h, err := z.l.Start(z.ctx)
	if err != nil {
		zzsym.Fail("C28: the server does not start")
	}
	z.h = h
}

// wait lets the stages run until cond holds or nothing happens any more.
func (z *zzLog) wait(cond func() bool) {
	if zzsym.Symbolic() {
		zzsym.Settle()
		return
	}
	for i := 0; i < 150; i++ {
		z.mu.Lock()
		ok := cond()
		z.mu.Unlock()
		if ok {
			break
		}
		time.Sleep(20 * time.Millisecond)
	}
	time.Sleep(60 * time.Millisecond)
}

// ---- storage as the log sees it

type zzObs struct {
	inner  Storage
	z      *zzLog
	count  map[string]int
	lookup bool // as seen by the submission handler
}

func zzClass(key string) string {
	for _, c := range []string{"tile/data", "tile/0", "tile/", "int/hashes", "int/dedupe", "issuer", "ct/v1/get-sth", "checkpoint"} {
		if strings.HasPrefix(key, c) {
			return c
		}
	}
	return key
}

// step accounts for one operation; it reports failure and whether the operation takes effect.
func (o *zzObs) step(op, key string) (fail, effect bool) {
	z := o.z
	c := zzClass(key)
	if o.lookup {
		op = "lookup"
	}
	n := o.count[op+c]
	o.count[op+c]++
	f := &z.fault
	if f.lose != nil {
		if f.lose(op, c) {
			return true, false
		}
		return false, true
	}
	if f.crash && f.hit {
		return true, false
	}
	if !f.hit && f.op == op && f.class == c && f.nth == n {
		f.hit = true
		return true, f.applied
	}
	return false, true
}

func (o *zzObs) Get(ctx context.Context, key string) ([]byte, error) {
	o.z.mu.Lock()
	defer o.z.mu.Unlock()
	if fail, _ := o.step("get", key); fail {
		o.z.failed = o.z.failed || !o.lookup
		return nil, zzErrIO
	}
	return o.inner.Get(ctx, key)
}

func (o *zzObs) Exists(ctx context.Context, key string) (bool, error) {
	o.z.mu.Lock()
	defer o.z.mu.Unlock()
	if fail, _ := o.step("exists", key); fail {
		o.z.failed = true
		return false, zzErrIO
	}
	return o.inner.Exists(ctx, key)
}

func (o *zzObs) Set(ctx context.Context, key string, data []byte) error {
	z := o.z
	if z.delay != "" && zzClass(key) == z.delay {
		zzsym.Delay()
	}
	if z.hang != nil {
		<-z.hang
	}
	z.mu.Lock()
	defer z.mu.Unlock()
	fail, effect := o.step("set", key)
	if effect {
		z.onSet(key, data)
		if err := o.inner.Set(ctx, key, data); err != nil {
			if ctx.Err() != nil {
				z.failed = true
				return err
			}
			zzsym.Fail("C24,C31: a write fails")
		}
	}
	if fail {
		z.failed = true
		return zzErrIO
	}
	return nil
}

// tag names the properties an online check concerns: after a crash, the log's continuation is C04's as well.
func (z *zzLog) tag(id string) string {
	if z.restarted {
		return id + ",C04: "
	}
	return id + ": "
}

// peek reads an object directly.
func (z *zzLog) peek(key string) ([]byte, bool) {
	b, err := os.ReadFile(z.dir + "/" + key)
	return b, err == nil
}

// onSet checks what is stored against the log's entries, before it is stored.
func (z *zzLog) onSet(key string, data []byte) {
	zzsym.Assert(!z.dead, "C05: "+zzClass(key)+" is stored although publication has failed")
	switch key {
	case "ct/v1/get-sth":
		z.sths++
		zzsym.Assert(!z.failed, "C05: a tree head is stored after a storage failure")
		size, ts, root := zzSTH(data)
		z.published("tree head", size, z.pub, ts, root)
		z.pub, z.pubTime = size, ts
	case "checkpoint":
		zzsym.Assert(!z.failed, "C05: a checkpoint is stored after a storage failure")
		size, ts, root := zzCheckpoint(data)
		z.published("checkpoint", size, z.cp, ts, root)
		z.cp = size
		if sth, ok := z.peek("ct/v1/get-sth"); ok {
			zzsym.Assert(size == z.pub, "C16: the checkpoint's size is not the tree head's")
			var p struct {
				Root []byte `json:"sha256_root_hash"`
			}
			err := json.Unmarshal(sth, &p)
			zzsym.Assert(err == nil && zzsym.EqBytes(p.Root, root), "C16: the checkpoint's root is not the tree head's")
		}
	default:
		if s, ok := zzref.ParseTilePath(key); ok {
			if z.taking && s.Level < 0 {
				z.take(s, data)
			}
			// what a published tree consists of does not change
			level := max(s.Level, 0)
			m := max(z.pub, z.cp) >> (8 * level)
			if s.N<<8+int64(s.W) <= m {
				zzsym.Assert(zzsym.EqBytes(data, z.t.Bytes(s)), z.tag("C03")+"a tile of a published tree is overwritten with other contents")
			}
		}
		if strings.HasPrefix(key, "issuer/") {
			fp := zzsym.Digest(data)
			zzsym.Assert(zzsym.EqBytes([]byte(key[len("issuer/"):]), []byte(zzref.Hex(fp[:]))), "C27: an issuer object is not named by the hash of its contents")
		}
	}
}

// published checks a tree head or checkpoint about to be stored.
func (z *zzLog) published(what string, size, old int64, ts uint64, root []byte) {
	want := z.t.Root(size)
	zzsym.Assert(size >= old, z.tag("C02")+"the "+what+"'s size decreases")
	zzsym.Assert(zzsym.EqBytes(root, want[:]), z.tag("C02")+"the "+what+"'s root is not the Merkle tree hash of the log's entries")
	for _, s := range zzref.Spans(z.checked, size) {
		b, ok := z.peek(s.Path())
		zzsym.Assert(ok, z.tag("C03")+"the "+what+" is stored before a tile it needs")
		zzsym.Assert(len(b) == len(z.t.Bytes(s)) && zzsym.EqBytes(b, z.t.Bytes(s)), z.tag("C03")+"a tile does not match the "+what)
	}
	for i := old; i < size; i++ {
		zzsym.Assert(ts >= z.t.Entry(i).Timestamp, "C16: the "+what+" is dated before an entry it covers")
	}
	for i := z.checked; i < size; i++ {
		e := z.t.Entry(i)
		for _, c := range e.Chain {
			fp := zzsym.Digest(c)
			b, ok := z.peek("issuer/" + zzref.Hex(fp[:]))
			zzsym.Assert(ok, "C27: a chain certificate is not stored when the "+what+" is")
			zzsym.Assert(len(b) == len(c) && zzsym.EqBytes(b, c), "C27: an issuer object does not hold the certificate")
		}
		if size-z.checked <= 4 {
			h := e.LeafHash()
			r, err := z.raw.GetRecordHash(context.Background(), [16]byte(h[:16]), z.mask)
			zzsym.Assert(err == nil && r.leafIndex == uint64(i), z.tag("C13")+"a published entry is not found by its hash")
		}
	}
	if z.taking {
		z.recorded(z.checked, size)
	}
	z.checked = size
}

// recorded checks that an issuer object exists for every chain fingerprint in the data tiles' entries from old to size, whatever these entries are.
func (z *zzLog) recorded(old, size int64) {
	for _, s := range zzref.Spans(old, size) {
		if s.Level >= 0 {
			continue
		}
		b, ok := z.peek(s.Path())
		if !ok {
			continue
		}
		first := max(old-s.N<<8, 0)
		b = b[min(len(b), len(z.t.DataTile(s.N, int(first)))):]
		num := func(n int) int {
			x := 0
			for ; n > 0 && len(b) > 0; n-- {
				x, b = x<<8|zzsym.Conc(int(b[0])), b[1:]
			}
			return x
		}
		skip := func(n int) { b = b[min(n, len(b)):] }
		for i := first; i < int64(s.W) && len(b) > 0; i++ {
			skip(8)
			pre := num(2) == 1
			if pre {
				skip(32)
			}
			skip(num(3))
			skip(num(2))
			if pre {
				skip(num(3))
			}
			n := num(2)
			for ; n >= 32 && len(b) >= 32; n -= 32 {
				c, ok := z.peek("issuer/" + zzref.Hex(b[:32]))
				zzsym.Assert(ok, "C27: an issuer object is missing for a fingerprint recorded in an entry")
				fp := zzsym.Digest(c)
				zzsym.Assert(zzsym.EqBytes(fp[:], b[:32]), "C27: an issuer object's contents do not have the recorded fingerprint")
				b = b[32:]
			}
		}
	}
}

func zzSTH(data []byte) (size int64, ts uint64, root []byte) {
	var p struct {
		Size *int64  `json:"tree_size"`
		Time *uint64 `json:"timestamp"`
		Root []byte  `json:"sha256_root_hash"`
		Sig  []byte  `json:"tree_head_signature"`
	}
	err := json.Unmarshal(data, &p)
	zzsym.Assert(err == nil && p.Size != nil && p.Time != nil, "C16: the tree head is not well-formed")
	zzsym.Assert(zzVerify(0, zzTreeHead(uint64(*p.Size), *p.Time, p.Root), p.Sig), "C16: the tree head's signature does not cover its contents")
	return int64(zzsym.Conc(int(*p.Size))), *p.Time, p.Root
}

// zzTreeHead is the input of a tree head signature (RFC 6962, 3.5).
func zzTreeHead(size, ts uint64, root []byte) []byte {
	return zzref.Cat([]byte{0, 1}, zzref.BE(ts, 8), zzref.BE(size, 8), root)
}

// zzVerify checks a digitally-signed structure.
func zzVerify(key int, msg, sig []byte) bool {
	if len(sig) < 4 || sig[0] != 4 || sig[1] != 3 || int(sig[2])<<8+int(sig[3]) != len(sig)-4 {
		return false
	}
	h := zzsym.Digest(msg)
	return ecdsa.VerifyASN1(&zzsym.Key(key).PublicKey, h[:], sig[4:])
}

func zzCheckpoint(data []byte) (size int64, ts uint64, root []byte) {
	lines := strings.Split(string(data), "\n")
	zzsym.Assert(len(lines) == 6 && lines[3] == "" && lines[5] == "", "C16: the checkpoint is not well-formed")
	zzsym.Assert(lines[0] == zzOrigin, "C16: the checkpoint is not labelled with the log's origin")
	size, err := strconv.ParseInt(lines[1], 10, 64)
	zzsym.Assert(err == nil && size >= 0, "C16: the checkpoint is not well-formed")
	root, err = base64.StdEncoding.DecodeString(lines[2])
	zzsym.Assert(err == nil && len(root) == 32, "C16: the checkpoint is not well-formed")
	pre := "\u2014 " + zzOrigin + " "
	zzsym.Assert(strings.HasPrefix(lines[4], pre), "C16: the checkpoint is not signed with the log's origin")
	sig, err := base64.StdEncoding.DecodeString(lines[4][len(pre):])
	zzsym.Assert(err == nil && len(sig) > 12, "C16: the checkpoint is not well-formed")
	for i := 4; i < 12; i++ {
		ts = ts<<8 | uint64(sig[i])
	}
	zzsym.Assert(zzVerify(0, zzTreeHead(uint64(size), ts, root), sig[12:]), "C16: the checkpoint's signature does not cover its contents")
	return int64(zzsym.Conc(int(size))), ts, root
}

// ---- entries

// unsequenced is the entry as the submission handler would pass it on.
func zzUnsequenced(e *zzref.Entry) sunlight.UnsequencedEntry {
	u := sunlight.UnsequencedEntry{Certificate: e.Cert, IsPrecert: e.Precert, IssuerKeyHash: e.KeyHash, PreCertificate: e.PreCert}
	u.CertificateFp = zzsym.Digest(e.Cert)
	if e.Precert {
		u.CertificateFp = zzsym.Digest(e.PreCert)
	}
	for _, c := range e.Chain {
		// several certificates of one authority, as far as names and keys go
		u.Chain = append(u.Chain, &x509.Certificate{Raw: c, RawTBSCertificate: c, RawSubject: []byte{1}, SubjectKeyId: []byte{1}, RawSubjectPublicKeyInfo: []byte{2}})
		u.ChainFp = append(u.ChainFp, zzsym.Digest(c))
	}
	return u
}

// pool hands a batch to stage two as stage one would, and checks what is returned.
func (z *zzLog) pool(es []*zzref.Entry) {
	pool := []LogEntryWithReturnPath{}
	for _, e := range es {
		z.t.Expand(int64(e.Index))
		z.t.Entries[int64(e.Index)] = e
		// 16-byte prefixes of distinct leaf hashes differ
		h := z.t.Hash(0, int64(e.Index))
		all := zzsym.IsSym(h[:])
		for i := range z.t.Entries {
			if uint64(i) != e.Index && (all || z.arb[i]) {
				g := z.t.Hash(0, i)
				zzsym.Assume(zzsym.Not(zzsym.EqBytes(h[:16], g[:16])))
			}
		}
		z.arb[int64(e.Index)] = all
		rp := make(chan sunlight.LogEntry, 1)
		pool = append(pool, LogEntryWithReturnPath{zzUnsequenced(e).Sequence(e.Index, int64(e.Timestamp)), rp})
		z.submitted++
		go func() {
			got := <-rp
			z.mu.Lock()
			defer z.mu.Unlock()
			zzsym.Assert(got.LeafIndex == e.Index, "C06: an entry's return path carries another entry")
			zzsym.Assert(z.pub > int64(e.Index), "C01: an entry is returned before a tree head covers it")
			zzsym.Assert(z.cp > int64(e.Index), "C01: an entry is returned before a checkpoint covers it")
			zzsym.Assert(!z.failed, "C05: an entry is returned although a storage operation failed")
			z.returned[e.Index] = true
		}()
	}
	n := z.sths
	r := len(z.returned)
	z.l.stageOneData.stageTwoTx <- pool
	z.wait(func() bool {
		return z.failed && z.cons.isReleased() || !z.failed && z.sths > n && len(z.returned) == r+len(es)
	})
}
