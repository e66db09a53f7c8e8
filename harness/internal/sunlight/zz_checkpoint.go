package sunlight

import (
	"crypto"
	"crypto/sha256"
	"encoding/base64"
	"strconv"
	"strings"

	"itko.dev/internal/zzsym"

	"golang.org/x/mod/sumdb/note"
	"golang.org/x/mod/sumdb/tlog"
)

// ---- references, written from RFC 6962 section 3.5, c2sp.org/static-ct-api and c2sp.org/signed-note

// zzText is the text of a checkpoint.
func zzText(origin string, n int64, root []byte) string {
	return origin + "\n" + strconv.FormatInt(n, 10) + "\n" + base64.StdEncoding.EncodeToString(root) + "\n"
}

// zzHead is the TreeHeadSignature structure.
func zzHead(n, ts uint64, root []byte) []byte {
	return zzCat([]byte{0, 1}, zzBE(ts, 8), zzBE(n, 8), root)
}

// zzOrigin picks an origin.
func zzOrigin(tag string) string {
	return []string{"example.com/log", "a", "\u00e9xample.test/-2024h1"}[zzsym.Choice(tag, 3)]
}

type zzCheckpoint struct {
	origin string
	key    int
	n      int64
	ts     uint64
	root   [32]byte
	cp     []byte
	text   string
	sig    []byte // as carried by the note, after the key hash
}

// zzMake makes a checkpoint of an arbitrary tree and takes it apart.
func zzMake(any bool) *zzCheckpoint {
	c := &zzCheckpoint{origin: "example.com/log", ts: zzsym.U64("ts"), root: zzsym.Hash("root")}
	if any {
		c.origin, c.key = zzOrigin("origin"), zzsym.Choice("key", 2)
		c.n = zzsym.I64("n")
		zzsym.Assume(c.n >= 0)
	} else {
		c.n = []int64{923748, 0, 1<<63 - 1}[zzsym.Choice("size", 3)]
	}
	cp, err := SignTreeHeadCheckpoint(c.origin, zzsym.Key(c.key), c.n, int64(c.ts), c.root)
	zzsym.Assert(err == nil, "C15: no checkpoint can be made")
	c.cp = cp
	c.text = zzText(c.origin, c.n, c.root[:])
	pre := c.text + "\n\u2014 " + c.origin + " "
	s := string(cp)
	zzsym.Assert(strings.HasPrefix(s, pre) && strings.HasSuffix(s, "\n"), "C15: the checkpoint is not a note with the text of the tree")
	b, err := base64.StdEncoding.DecodeString(s[len(pre) : len(s)-1])
	zzsym.Assert(err == nil && len(b) > 16, "C15: the checkpoint carries no signature")
	kh := sha256.Sum256([]byte(c.origin + "\n\x05" + string(zzKeyID(c.key))))
	zzsym.Assert(zzsym.EqBytes(b[:4], kh[:4]), "C15: the signature names another key")
	c.sig = b[4:]
	return c
}

func zzKeyID(i int) []byte {
	h := sha256.Sum256(zzSPKI(i))
	return h[:]
}

// VerifCheckpoint: a checkpoint opens under the verifier of its origin and key and carries its tree.
func VerifCheckpoint() {
	c := zzMake(true)
	zzsym.Reach("checkpoint")
	var seen []uint64
	v, err := NewRFC6962Verifier(c.origin, zzsym.Key(c.key).Public(), func(t uint64) { seen = append(seen, t) })
	zzsym.Assert(err == nil, "C15: there is no verifier for the origin and key")
	n, err := note.Open(c.cp, note.VerifierList(v))
	zzsym.Assert(err == nil, "C15: the checkpoint does not open under the verifier of its origin and key")
	zzsym.Assert(len(n.Sigs) == 1 && len(n.UnverifiedSigs) == 0, "C15: the checkpoint is not signed exactly once")
	zzsym.Assert(n.Text == c.text, "C15: the text of the checkpoint is not that of its tree")
	zzsym.Assert(len(seen) == 1 && seen[0] == c.ts, "C15: the timestamp reported is not the one signed")
	p, err := ParseCheckpoint(n.Text)
	zzsym.Assert(err == nil, "C15: the text of the checkpoint does not parse")
	zzsym.Assert(p.Origin == c.origin && p.N == c.n && p.Extension == "" && p.Hash == tlog.Hash(c.root), "C15: the text of the checkpoint parses to another tree")
	// another verifier
	other := c.origin
	key := c.key
	if zzsym.Choice("other", 2) == 0 {
		key = 1 - key
	} else {
		other = other + "x"
	}
	w, err := NewRFC6962Verifier(other, zzsym.Key(key).Public(), nil)
	zzsym.Assert(err == nil, "C15: there is no verifier for the origin and key")
	zzsym.Assert(w.Name() == other, "C15: the verifier has another name")
	_, err = note.Open(c.cp, note.VerifierList(w))
	zzsym.Assert(err != nil, "C15: the checkpoint opens under the verifier of another origin or key")
}

// VerifCheckpointOther: the signature of a checkpoint is good for no other tree, timestamp or key.
func VerifCheckpointOther() {
	c := zzMake(false)
	calls := 0
	key := zzsym.Choice("verifier key", 2)
	v, err := NewRFC6962Verifier(c.origin, zzsym.Key(key).Public(), func(t uint64) { calls++ })
	zzsym.Assert(err == nil, "C15: there is no verifier for the origin and key")
	n, ts, root := zzsym.I64("other n"), zzsym.U64("other ts"), zzsym.Hash("other root")
	ext := ""
	if zzsym.Choice("extended", 2) == 1 {
		ext = "x\n"
	}
	text := zzText(c.origin, n, root[:]) + ext
	sig := zzCat(zzBE(ts, 8), c.sig[8:])
	ok := v.Verify([]byte(text), sig)
	same := zzsym.All(n == c.n, ts == c.ts, zzsym.EqBytes(root[:], c.root[:]), key == c.key, ext == "")
	zzsym.Assert(zzsym.Iff(ok, same), "C15: the verifier accepts a signature for another tree, timestamp or key")
	if ok {
		zzsym.Reach("accepted")
		zzsym.Assert(calls == 1, "C15: the timestamp of a good signature is not reported")
	} else {
		zzsym.Reach("rejected")
		zzsym.Assert(calls == 0, "C15: a timestamp is reported for a signature that is not good")
	}
}

// zzEdit changes a few bytes at one place: w arbitrary bytes replace cut bytes at position at.
func zzEdit(tag string, b []byte, at, cut, w int) []byte {
	return zzCat(b[:at], zzsym.Bytes(tag, w), b[at+cut:])
}

// VerifCheckpointMalformed: nothing but the exact signature blob verifies.
func VerifCheckpointMalformed() {
	c := zzMake(false)
	v, err := NewRFC6962Verifier(c.origin, zzsym.Key(c.key).Public(), nil)
	zzsym.Assert(err == nil, "C15: there is no verifier for the origin and key")
	var sig []byte
	switch k := zzsym.Choice("change", 4); k {
	case 0:
		sig = zzsym.Bytes("sig", zzsym.Choice("len", 16))
	default:
		// the header, the start and the end of the signature proper
		at := zzsym.Choice("at", 18)
		if at > 14 {
			at = len(c.sig) - (at - 14) + 1
		}
		cut, w := []int{1, 0, 1}[k-1], []int{1, 1, 0}[k-1]
		if at+cut > len(c.sig) {
			zzsym.Assume(false)
		}
		sig = zzEdit("edit", c.sig, at, cut, w)
	}
	ok := v.Verify([]byte(c.text), sig)
	zzsym.Assert(zzsym.Iff(ok, len(sig) == len(c.sig) && zzsym.EqBytes(sig, c.sig)), "C15: the verifier accepts a malformed signature")
	zzsym.Reach("malformed")
}

// VerifCheckpointRSA: the verifier of an RSA key accepts exactly the RSA signature of the tree.
func VerifCheckpointRSA() {
	n, ts, root := zzsym.I64("n"), zzsym.U64("ts"), zzsym.Hash("root")
	zzsym.Assume(n >= 0)
	var seen []uint64
	v, err := NewRFC6962Verifier("example.com/log", zzsym.RSAKey(), func(t uint64) { seen = append(seen, t) })
	zzsym.Assert(err == nil, "C15: there is no verifier for the origin and key")
	d := sha256.Sum256(zzHead(uint64(n), ts, root[:]))
	s := zzsym.RSASign(d[:])
	text := []byte(zzText("example.com/log", n, root[:]))
	sig := zzCat(zzBE(ts, 8), []byte{4, 1}, zzVec(2, s))
	ok := v.Verify(text, sig)
	zzsym.Assert(ok, "C15: the verifier rejects the RSA signature of the tree")
	zzsym.Assert(len(seen) == 1 && seen[0] == ts, "C15: the timestamp reported is not the one signed")
	zzsym.Reach("RSA")
	switch zzsym.Choice("change", 5) {
	case 0:
		sig = zzCat(zzsym.Bytes("other ts", 8), sig[8:])
		zzsym.Assert(zzsym.Iff(v.Verify(text, sig), zzsym.EqBytes(sig[:8], zzBE(ts, 8))), "C15: the verifier accepts a signature for another timestamp")
	case 1:
		other := zzsym.Hash("other root")
		ok := v.Verify([]byte(zzText("example.com/log", n, other[:])), sig)
		zzsym.Assert(zzsym.Iff(ok, zzsym.EqBytes(other[:], root[:])), "C15: the verifier accepts a signature for another root")
	case 2:
		alg := zzsym.Bytes("alg", 2)
		sig = zzCat(sig[:8], alg, sig[10:])
		zzsym.Assert(zzsym.Iff(v.Verify(text, sig), zzsym.EqBytes(alg, []byte{4, 1})), "C15: the verifier accepts a signature of another algorithm")
	case 3:
		zzsym.Assert(zzsym.Not(v.Verify(text, zzCat(sig, zzsym.Bytes("more", 1)))), "C15: the verifier accepts a malformed signature")
	case 4:
		// an ECDSA signature under an RSA verifier and the other way round
		e, err := DigitallySign(zzsym.Key(0), zzHead(uint64(n), ts, root[:]))
		zzsym.Assert(err == nil, "C15: no checkpoint can be made")
		zzsym.Assert(zzsym.Not(v.Verify(text, zzCat(zzBE(ts, 8), e))), "C15: an RSA verifier accepts an ECDSA signature")
		w, err := NewRFC6962Verifier("example.com/log", zzsym.Key(0).Public(), nil)
		zzsym.Assert(err == nil && !w.Verify(text, sig), "C15: an ECDSA verifier accepts an RSA signature")
	}
}

// VerifCheckpointName: names that a note cannot carry are refused when the checkpoint is made, not when it is read.
func VerifCheckpointName() {
	name := zzsym.Str("name", zzsym.Choice("len", zzsym.Param("len", 2)+1))
	root := zzsym.Hash("root")
	cp, err := SignTreeHeadCheckpoint(name, zzsym.Key(0), 5, 6, root)
	v, verr := NewRFC6962Verifier(name, zzsym.Key(0).Public(), nil)
	zzsym.Assert((err == nil) == (verr == nil), "C15: a checkpoint can be made for a name that has no verifier")
	if err != nil {
		zzsym.Reach("refused")
		ok := len(name) > 0
		for i := 0; i < len(name); i++ {
			c := name[i]
			ok = zzsym.All(ok, c > ' ', c < 0x7f, c != '+')
		}
		zzsym.Assert(zzsym.Not(ok), "C15: no checkpoint can be made for a good name")
		return
	}
	zzsym.Reach("named")
	n, err := note.Open(cp, note.VerifierList(v))
	ctl := false
	for i := 0; i < len(name); i++ {
		ctl = zzsym.Any(ctl, name[i] < 0x20)
	}
	zzsym.Assert(zzsym.Any(ctl, err == nil), "C15: the checkpoint does not open under the verifier of its origin and key")
	if err == nil {
		zzsym.Assert(n.Text == zzText(name, 5, root[:]), "C15: the text of the checkpoint is not that of its tree")
	}
}

// zzParse reads a text and checks it against what can be said independently.
func zzParse(text string) bool {
	c, err := ParseCheckpoint(text)
	if err != nil {
		return false
	}
	zzsym.Assert(c.N >= 0, "C15: a checkpoint of negative size parses")
	zzsym.Assert(FormatCheckpoint(c) == text, "C15: a text that is not canonical parses as a checkpoint")
	return true
}

// VerifParseCanonical: every canonical text parses to the tree it states.
func VerifParseCanonical() {
	k := zzsym.Choice("origin", 3)
	origin := []string{"", "example.com/log", "?"}[k]
	if k == 2 {
		origin = zzsym.Str("origin bytes", 2)
		zzsym.Assume(zzsym.All(origin[0] != '\n', origin[1] != '\n'))
	}
	n, root := zzsym.I64("n"), zzsym.Hash("root")
	zzsym.Assume(n >= 0)
	ext := []string{"", "a\n", "?", "line\nanother line\n", strings.Repeat("x", 20000) + "\n"}[zzsym.Choice("extension", 5)]
	if ext == "?" {
		ext = zzsym.Str("extension byte", 2) + "\n"
		zzsym.Assume(zzsym.All(ext[0] != '\n', ext[1] != '\n'))
	}
	c := Checkpoint{origin, tlog.Tree{N: n, Hash: root}, ext}
	text := FormatCheckpoint(c)
	zzsym.Assert(text == zzText(origin, n, root[:])+ext, "C15: the text of a checkpoint is not the canonical one")
	p, err := ParseCheckpoint(text)
	zzsym.Assert(err == nil, "C15: a canonical text does not parse")
	zzsym.Assert(p.Origin == origin && p.N == n && p.Extension == ext && p.Hash == c.Hash, "C15: a canonical text parses to something else")
	zzsym.Reach("canonical")
}

// VerifParseEdited: a canonical text with a few arbitrary bytes in one place parses only if it is canonical again.
func VerifParseEdited() {
	root := zzsym.Hash("root")
	root[0] = 0 // the root line does not start with a digit
	text := []byte(zzText("ab", []int64{7, 923748}[zzsym.Choice("size", 2)], root[:]) + []string{"", "e\n"}[zzsym.Choice("extension", 2)])
	at := zzsym.Choice("at", len(text)+1)
	cut, w := zzsym.Choice("cut", 2), zzsym.Choice("width", zzsym.Param("width", 1)+1)
	zzsym.Assume(at+cut <= len(text))
	if zzParse(string(zzEdit("edit", text, at, cut, w))) {
		zzsym.Reach("parsed")
	} else {
		zzsym.Reach("refused")
	}
}

// VerifParseSize: which size lines are accepted.
func VerifParseSize() {
	root := zzsym.Hash("root")
	var line string
	k := zzsym.Choice("line", 12)
	if k < 4 {
		line = zzsym.Str("size line", k)
	} else {
		line = []string{"9223372036854775807", "9223372036854775808", "18446744073709551616", "-9223372036854775808", "00000000000000000001", "1_000", "0x10", "99999999999999999999999"}[k-4]
	}
	if zzParse("ab\n" + line + "\n" + base64.StdEncoding.EncodeToString(root[:]) + "\n") {
		zzsym.Reach("parsed")
	} else {
		zzsym.Reach("refused")
	}
}

// VerifParseRoot: which root lines are accepted: any characters at the end, other lengths.
func VerifParseRoot() {
	var line string
	switch zzsym.Choice("line", 3) {
	case 0:
		root := zzsym.Hash("root")
		line = base64.StdEncoding.EncodeToString(root[:30]) + zzsym.Str("end", 4)
	case 1:
		line = base64.StdEncoding.EncodeToString(zzsym.Bytes("other", []int{0, 31, 33, 64}[zzsym.Choice("other length", 4)]))
	case 2:
		line = strings.Repeat("A", 40) + zzsym.Str("end", 4) + "\n" + zzsym.Str("tail", zzsym.Choice("tail length", 3))
		line = strings.TrimSuffix(line, "\n")
	}
	if zzParse("ab\n5\n" + line + "\n") {
		zzsym.Reach("parsed")
	} else {
		zzsym.Reach("refused")
	}
}

// VerifParseAny: arbitrary short texts, and texts that are too long.
func VerifParseAny() {
	if zzsym.Choice("long", 2) == 1 {
		root := zzsym.Hash("root")
		pre := zzText("ab", 7, root[:])
		for _, n := range []int{1000000 - len(pre), 1000000 - len(pre) + 1} {
			ok := zzParse(pre + strings.Repeat("x", n-1) + "\n")
			_ = ok
		}
		zzsym.Reach("long")
		return
	}
	zzsym.Assert(!zzParse(zzsym.Str("text", zzsym.Choice("len", zzsym.Param("len", 5)+1))), "C15: a text without a root parses as a checkpoint")
	zzsym.Reach("short")
}

var _ crypto.PublicKey
