package ctsubmit

import (
	"context"
	"errors"
	"fmt"
	"io"
	"net"
	"net/http"
	"os"
	"strconv"
	"strings"
	"sync"

	"github.com/aws/aws-sdk-go-v2/aws"
	awshttp "github.com/aws/aws-sdk-go-v2/aws/transport/http"
	"github.com/aws/aws-sdk-go-v2/service/s3"
	s3types "github.com/aws/aws-sdk-go-v2/service/s3/types"
	"github.com/aws/smithy-go"
	smithyhttp "github.com/aws/smithy-go/transport/http"
	"github.com/google/certificate-transparency-go/x509"

	"itko.dev/internal/zzsym"
)

// ---- an S3 object store: its client is a model under the engine; natively a small HTTP server answers the real client.
// The objects are the files of a directory.

const (
	zzRegion = "zz-region"
	zzBucket = "zzbucket"
	zzUser   = "zzuser"
	zzPass   = "zzsecret"
)

const (
	zzS3OK     = iota
	zzS3Status // an error status
	zzS3Refuse // no answer, no effect
	zzS3Lost   // takes effect, but no answer
	zzS3Cut    // the answer breaks off
)

type zzS3 struct {
	mu     sync.Mutex
	dir    string
	addr   string
	fault  func(method, key string) (kind, status int)
	onPut  func(key string)
	asked  int
	wrong  int // requests for another bucket or with other credentials
	method map[string]int
}

var zzS3Store *zzS3

type zzS3Client struct {
	cfg  aws.Config
	opts s3.Options
}

var zzS3Clients = map[*s3.Client]*zzS3Client{}

// zzServeS3 starts an object store on a directory.
func zzServeS3(dir string) *zzS3 {
	s := &zzS3{dir: dir, method: map[string]int{}}
	zzS3Store = s
	if zzsym.Symbolic() {
		s.addr = "http://localhost:9000"
		return s
	}
	l, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		panic(err)
	}
	go http.Serve(l, http.HandlerFunc(s.handle))
	s.addr = "http://127.0.0.1:" + strconv.Itoa(l.Addr().(*net.TCPAddr).Port)
	if a, err := net.LookupHost("localhost"); err == nil && len(a) > 0 {
		s.addr = "http://localhost:" + strconv.Itoa(l.Addr().(*net.TCPAddr).Port)
	}
	return s
}

func (s *zzS3) storage() *S3Storage {
	st := NewS3Storage(zzRegion, zzBucket, s.addr, zzUser, zzPass)
	return &st
}

// do performs an operation; status 0: no answer.
func (s *zzS3) do(method, key string, body []byte) (status int, data []byte, cut bool) {
	s.mu.Lock()
	defer s.mu.Unlock()
	s.asked++
	s.method[method+" "+key]++
	kind, st := zzS3OK, 0
	if s.fault != nil {
		kind, st = s.fault(method, key)
	}
	switch kind {
	case zzS3Status:
		return st, nil, false
	case zzS3Refuse:
		return 0, nil, false
	}
	status = 200
	switch method {
	case "PUT":
		if s.onPut != nil {
			s.onPut(key)
		}
		c := append([]byte{}, body...)
		zzsym.FsPut(s.dir+"/"+key, func() []byte { return c })
	default:
		b, err := os.ReadFile(s.dir + "/" + key)
		if err != nil {
			status = 404
		} else {
			data = b
		}
	}
	if kind == zzS3Lost {
		return 0, nil, false
	}
	return status, data, kind == zzS3Cut
}

func (s *zzS3) handle(w http.ResponseWriter, r *http.Request) {
	key, ok := strings.CutPrefix(r.URL.Path, "/"+zzBucket+"/")
	auth := r.Header.Get("Authorization")
	if !ok || !strings.HasPrefix(auth, "AWS4-HMAC-SHA256 Credential="+zzUser+"/") || !strings.Contains(auth, "/"+zzRegion+"/s3/") {
		s.mu.Lock()
		s.wrong++
		s.mu.Unlock()
		zzS3Error(w, 403, "AccessDenied")
		return
	}
	body, err := io.ReadAll(r.Body)
	if err != nil {
		return
	}
	status, data, cut := s.do(r.Method, key, body)
	switch {
	case status == 0 || cut && r.Method != "GET":
		c, _, err := w.(http.Hijacker).Hijack()
		if err == nil {
			c.Close()
		}
	case status == 404:
		zzS3Error(w, status, "NoSuchKey")
	case status != 200:
		zzS3Error(w, status, zzS3Code(status))
	case cut:
		c, buf, err := w.(http.Hijacker).Hijack()
		if err == nil {
			fmt.Fprintf(buf, "HTTP/1.1 200 OK\r\nContent-Length: %d\r\n\r\n", len(data)+1)
			buf.Write(data[:len(data)/2])
			buf.Flush()
			c.Close()
		}
	default:
		w.Header().Set("Content-Length", strconv.Itoa(len(data)))
		if r.Method == "GET" {
			w.Write(data)
		}
	}
}

func zzS3Code(status int) string {
	switch status {
	case 403:
		return "AccessDenied"
	case 503:
		return "SlowDown"
	case 500:
		return "InternalError"
	}
	return "Failure"
}

func zzS3Error(w http.ResponseWriter, status int, code string) {
	w.Header().Set("Content-Type", "application/xml")
	w.WriteHeader(status)
	fmt.Fprintf(w, `<?xml version="1.0" encoding="UTF-8"?><Error><Code>%s</Code><Message>zz</Message></Error>`, code)
}

//gosym:model github.com/aws/aws-sdk-go-v2/service/s3.NewFromConfig
func zzS3New(cfg aws.Config, opts ...func(*s3.Options)) *s3.Client {
	z := &zzS3Client{cfg: cfg}
	z.opts.Region, z.opts.Credentials, z.opts.BaseEndpoint = cfg.Region, cfg.Credentials, cfg.BaseEndpoint
	for _, o := range opts {
		o(&z.opts)
	}
	c := &s3.Client{}
	zzS3Clients[c] = z
	return c
}

type zzS3Body struct {
	data []byte
	cut  bool
}

func (b *zzS3Body) Read(p []byte) (int, error) {
	if len(b.data) == 0 {
		if b.cut {
			return 0, io.ErrUnexpectedEOF
		}
		return 0, io.EOF
	}
	n := copy(p, b.data)
	b.data = b.data[n:]
	return n, nil
}

func (b *zzS3Body) Close() error { return nil }

// call is a request of the model client.
func (z *zzS3Client) call(ctx context.Context, op, method string, bucket, key *string, body []byte) ([]byte, bool, error) {
	fail := func(err error) error { return &smithy.OperationError{ServiceID: "S3", OperationName: op, Err: err} }
	if bucket == nil || *bucket == "" || key == nil || *key == "" {
		return nil, false, fail(errors.New("zz: missing parameter"))
	}
	if ctx.Err() != nil {
		return nil, false, fail(&aws.RequestCanceledError{Err: ctx.Err()})
	}
	if z.opts.Credentials == nil || z.opts.BaseEndpoint == nil {
		return nil, false, fail(errors.New("zz: no credentials or endpoint"))
	}
	cred, err := z.opts.Credentials.Retrieve(ctx)
	if err != nil {
		return nil, false, fail(err)
	}
	status, data, cut := 0, []byte(nil), false
	switch {
	case *z.opts.BaseEndpoint != zzS3Store.addr || !z.opts.UsePathStyle:
		return nil, false, fail(&smithyhttp.RequestSendError{Err: errors.New("zz: no such host")})
	case *bucket != zzBucket || cred.AccessKeyID != zzUser || cred.SecretAccessKey != zzPass || cred.SessionToken != "" || z.opts.Region != zzRegion:
		zzS3Store.wrong++
		status = 403
	default:
		status, data, cut = zzS3Store.do(method, *key, body)
	}
	switch {
	case status == 0 || cut && method != "GET":
		return nil, false, fail(&smithyhttp.RequestSendError{Err: io.EOF})
	case status < 200 || status >= 300:
		var e error = &smithy.GenericAPIError{Code: zzS3Code(status), Message: "zz"}
		if status == 404 {
			if method == "GET" {
				e = &s3types.NoSuchKey{}
			} else if method == "HEAD" {
				e = &s3types.NotFound{}
			}
		}
		return nil, false, fail(&awshttp.ResponseError{ResponseError: &smithyhttp.ResponseError{
			Response: &smithyhttp.Response{Response: &http.Response{StatusCode: status}}, Err: e}})
	}
	return data, cut, nil
}

//gosym:model (*github.com/aws/aws-sdk-go-v2/service/s3.Client).GetObject
func zzS3Get(c *s3.Client, ctx context.Context, in *s3.GetObjectInput, opts ...func(*s3.Options)) (*s3.GetObjectOutput, error) {
	data, cut, err := zzS3Clients[c].call(ctx, "GetObject", "GET", in.Bucket, in.Key, nil)
	if err != nil {
		return nil, err
	}
	n := int64(len(data))
	if cut {
		n++
		data = data[:len(data)/2]
	}
	return &s3.GetObjectOutput{Body: &zzS3Body{data, cut}, ContentLength: &n}, nil
}

//gosym:model (*github.com/aws/aws-sdk-go-v2/service/s3.Client).HeadObject
func zzS3Head(c *s3.Client, ctx context.Context, in *s3.HeadObjectInput, opts ...func(*s3.Options)) (*s3.HeadObjectOutput, error) {
	data, _, err := zzS3Clients[c].call(ctx, "HeadObject", "HEAD", in.Bucket, in.Key, nil)
	if err != nil {
		return nil, err
	}
	n := int64(len(data))
	return &s3.HeadObjectOutput{ContentLength: &n}, nil
}

//gosym:model (*github.com/aws/aws-sdk-go-v2/service/s3.Client).PutObject
func zzS3Put(c *s3.Client, ctx context.Context, in *s3.PutObjectInput, opts ...func(*s3.Options)) (*s3.PutObjectOutput, error) {
	body := []byte{}
	if in.Body != nil {
		var err error
		if body, err = io.ReadAll(in.Body); err != nil {
			return nil, err
		}
	}
	if _, _, err := zzS3Clients[c].call(ctx, "PutObject", "PUT", in.Bucket, in.Key, body); err != nil {
		return nil, err
	}
	return &s3.PutObjectOutput{}, nil
}

// ---- C31

func zzS3Absent(err error) bool {
	var e *s3types.NoSuchKey
	return errors.As(err, &e) || errors.Is(err, os.ErrNotExist)
}

func zzS3Check(s Storage, k string, want []byte, what string) {
	ctx := context.Background()
	got, err := s.Get(ctx, k)
	ok, xerr := s.Exists(ctx, k)
	if want == nil {
		zzsym.Assert(err != nil && zzS3Absent(err), "C31: reading "+what+" does not report that it does not exist")
		zzsym.Assert(xerr == nil && !ok, "C31: "+what+" exists")
		return
	}
	zzsym.Assert(err == nil, "C31: "+what+" cannot be read")
	zzsym.Assert(len(got) == len(want) && zzsym.EqBytes(got, want), "C31: "+what+" is not read as written")
	zzsym.Assert(xerr == nil && ok, "C31: "+what+" does not exist")
}

// VerifS3ReadBack: what was written is read, nothing else changes.
func VerifS3ReadBack() {
	ctx := context.Background()
	srv := zzServeS3(zzsym.TempDir())
	s := srv.storage()
	k1 := zzFsKey("k1")
	k2 := zzFsKeys[(zzsym.Choice("k2", len(zzFsKeys)-1)+1+zzIndexOf(k1))%len(zzFsKeys)]
	zzS3Check(s, k1, nil, "a key never written")
	a, b, c := zzThree(k1)
	set := func(k string, d []byte) {
		in := append([]byte{}, d...)
		err := s.Set(ctx, k, d)
		zzsym.Assert(err == nil, "C31: a write to a working object store fails")
		zzsym.Assert(zzsym.EqBytes(in, d), "C31: a write changes the caller's data")
	}
	set(k1, a)
	zzS3Check(s, k1, a, "the written key")
	zzS3Check(s, k2, nil, "another key")
	set(k2, b)
	zzS3Check(s, k1, a, "the other key")
	zzS3Check(s, k2, b, "the second key")
	set(k1, c)
	zzS3Check(s, k1, c, "the overwritten key")
	zzS3Check(s, k2, b, "the key not overwritten")
	zzsym.Assert(srv.wrong == 0, "C31: a request goes to another bucket or has other credentials")
	zzsym.Reach("read back")
}

// VerifS3Fault: the object store fails, on an object that exists or does not.
func VerifS3Fault() {
	ctx := context.Background()
	srv := zzServeS3(zzsym.TempDir())
	s := srv.storage()
	k := zzFsKey("k")
	var old []byte
	if zzsym.Choice("exists", 2) == 1 {
		old = zzContent("old")
		zzsym.FsPut(srv.dir+"/"+k, func() []byte { return old })
	}
	kind := 1 + zzsym.Choice("kind", 4)
	status := 0
	if kind == zzS3Status {
		status = []int{403, 500, 503, 400, 409, 412, 416, 401}[zzsym.Choice("status", zzsym.Param("statuses", 3))]
	}
	srv.fault = func(method, key string) (int, int) { return kind, status }
	op := zzsym.Choice("op", 3)
	var err error
	d := zzContent("new")
	switch op {
	case 0:
		if old == nil && kind == zzS3Cut {
			zzsym.Stop() // there is no answer to break off
		}
		_, err = s.Get(ctx, k)
		zzsym.Assert(err != nil, "C31: a read succeeds although the object store fails")
		zzsym.Assert(!zzS3Absent(err), "C31: a failing object store is taken for an object that does not exist")
	case 1:
		err = s.Set(ctx, k, d)
		zzsym.Assert(err != nil, "C31: a write succeeds although the object store fails")
	case 2:
		_, err = s.Exists(ctx, k)
		zzsym.Assert(err != nil, "C31: whether an object exists is answered although the object store fails")
	}
	srv.fault = nil
	if op == 1 && (kind == zzS3Lost || kind == zzS3Cut) {
		old = d
	}
	zzS3Check(s, k, old, "the object, after a failure,")
	zzsym.Reach("failed")
}

// VerifS3Index: the indexes and issuers tell an object that does not exist from a failing object store.
func VerifS3Index() {
	ctx := context.Background()
	srv := zzServeS3(zzsym.TempDir())
	b := Bucket{S: srv.storage()}
	have := zzsym.Choice("exists", 2) == 1
	fails := zzsym.Choice("fails", 3)
	fault := func(method, key string) (int, int) {
		switch {
		case fails == 1 && method != "PUT":
			return zzS3Status, []int{403, 500}[zzsym.Choice("status", 2)]
		case fails == 2 && method != "PUT":
			return zzS3Refuse, 0
		}
		return zzS3OK, 0
	}
	h, g := zzsym.Hash16("hash"), zzsym.Hash16("other")
	h[0], g[0] = 0x3a, 0x3b // one index object
	switch zzsym.Choice("what", 4) {
	case 0:
		if have {
			err := b.PutRecordHashes(ctx, []RecordHashUpload{{hash: g, leafIndex: 5}}, 1)
			zzsym.Assert(err == nil, "C31: records cannot be stored")
		}
		srv.fault = fault
		err := b.PutRecordHashes(ctx, []RecordHashUpload{{hash: h, leafIndex: 7}}, 1)
		srv.fault = nil
		zzsym.Assert(fails == 0 || err != nil, "C31: records are stored although the existing ones cannot be read")
		zzsym.Assert(fails != 0 || err == nil, "C31: records cannot be stored")
		if have {
			r, err := b.GetRecordHash(ctx, g, 1)
			zzsym.Assert(err == nil && r.leafIndex == 5, "C31: an earlier record is lost")
		}
		r, err := b.GetRecordHash(ctx, h, 1)
		zzsym.Assert((err == nil && r.leafIndex == 7) == (fails == 0), "C31: a record is not found")
	case 1:
		if have {
			err := b.PutDedupeEntries(ctx, []DedupeUpload{{hash: g, leafIndex: 5, timestamp: 1}}, 1)
			zzsym.Assert(err == nil, "C31: records cannot be stored")
		}
		srv.fault = fault
		err := b.PutDedupeEntries(ctx, []DedupeUpload{{hash: h, leafIndex: 7, timestamp: 2}}, 1)
		srv.fault = nil
		zzsym.Assert(fails == 0 || err != nil, "C31: records are stored although the existing ones cannot be read")
		zzsym.Assert(fails != 0 || err == nil, "C31: records cannot be stored")
		if have {
			r, err := b.GetDedupeEntry(ctx, g, 1)
			zzsym.Assert(err == nil && r.leafIndex == 5 && r.timestamp == 1, "C31: an earlier record is lost")
		}
		r, err := b.GetDedupeEntry(ctx, h, 1)
		zzsym.Assert((err == nil && r.leafIndex == 7 && r.timestamp == 2) == (fails == 0), "C31: a record is not found")
	case 2:
		if have {
			err := b.PutDedupeEntries(ctx, []DedupeUpload{{hash: g, leafIndex: 5, timestamp: 1}}, 1)
			zzsym.Assert(err == nil, "C31: records cannot be stored")
		}
		srv.fault = fault
		_, err := b.GetDedupeEntry(ctx, h, 1)
		zzsym.Assert(err != nil, "C31: a record never stored is found")
		zzsym.Assert(errors.Is(err, errRecordNotFound) == (fails == 0), "C31: a failing object store is taken for a record that does not exist")
	case 3:
		cert := &x509.Certificate{Raw: zzsym.Bytes("cert", 2)}
		fp := zzsym.Digest(cert.Raw)
		key := "issuer/" + fmt.Sprintf("%x", fp)
		if have {
			zzsym.FsPut(srv.dir+"/"+key, func() []byte { return cert.Raw })
		}
		srv.fault = fault
		err := b.SetIssuer(ctx, cert)
		srv.fault = nil
		if fails == 0 {
			zzsym.Assert(err == nil, "C31: a certificate cannot be stored")
			zzS3Check(b.S, key, cert.Raw, "a stored certificate")
			zzsym.Assert(!have || srv.method["PUT "+key] == 0, "C31: a certificate is stored again")
		} else if err == nil {
			zzS3Check(b.S, key, cert.Raw, "a certificate reported as stored")
		}
	}
	zzsym.Reach("index")
}
