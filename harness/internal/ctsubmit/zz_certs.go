package ctsubmit

import (
	"bytes"
	"crypto/rand"
	"errors"
	"math/big"
	"time"

	"github.com/google/certificate-transparency-go/asn1"
	"github.com/google/certificate-transparency-go/x509"
	"github.com/google/certificate-transparency-go/x509/pkix"

	"itko.dev/internal/zzref"
	"itko.dev/internal/zzsym"
)

// zzCert describes a certificate.  Natively it is a real one; under the engine it is a byte string that the models of the
// X.509 functions below understand.
type zzCert struct {
	name     byte // subject
	key      byte
	issuer   *zzCert // nil: self-signed
	forged   bool    // signed with another key than its issuer's
	ca       bool
	poison   byte // 1: precertificate, 2: with an ill-formed poison, 3: with a poison that is not critical
	ctEKU    bool
	notAfter uint32
	content  []byte
	version  byte
	lax      bool // has an error that is not fatal
	resigned bool // the same to-be-signed part with another signature
	der      []byte
}

var zzOIDContent = asn1.ObjectIdentifier{1, 3, 6, 1, 4, 1, 11129, 99}

const zzForgedKey = 99

func (c *zzCert) parent() *zzCert {
	if c.issuer == nil {
		return c
	}
	return c.issuer
}

func (c *zzCert) flags(poison byte) byte {
	f := poison<<4 | c.version<<6
	if c.ca {
		f |= 1
	}
	if c.ctEKU {
		f |= 2
	}
	if c.lax {
		f |= 4
	}
	return f
}

// raw is the certificate's encoding.
func (c *zzCert) raw() []byte {
	if c.der == nil {
		signer := c.parent().key
		if c.forged {
			signer = zzForgedKey
		}
		if zzsym.Symbolic() {
			if c.resigned {
				signer |= 0x80
			}
			c.der = zzref.Cat([]byte{'C', c.flags(c.poison), c.name, c.key, c.parent().name, signer, c.parent().key}, zzref.BE(uint64(c.notAfter), 4), c.content)
		} else {
			c.der = c.create(c.poison, c.parent(), signer)
		}
	}
	return c.der
}

// tbs is the to-be-signed part of the certificate this precertificate stands for, as issued by ca.
func (c *zzCert) tbs(ca *zzCert) []byte {
	if zzsym.Symbolic() {
		return zzref.Cat([]byte{'T', c.flags(0), c.name, c.key, ca.name, ca.key}, zzref.BE(uint64(c.notAfter), 4), c.content)
	}
	p, err := x509.ParseCertificate(c.create(0, ca, ca.key))
	if x509.IsFatal(err) {
		panic(err)
	}
	return p.RawTBSCertificate
}

// spki is the certificate's public key.
func (c *zzCert) spki() []byte {
	if zzsym.Symbolic() {
		return []byte{'K', c.key}
	}
	b, err := x509.MarshalPKIXPublicKey(zzsym.Key(100 + int(c.key)).Public())
	if err != nil {
		panic(err)
	}
	return b
}

func (c *zzCert) create(poison byte, parent *zzCert, signer byte) []byte {
	t := &x509.Certificate{
		SerialNumber: big.NewInt(7), Subject: pkix.Name{CommonName: string(rune('a' + c.name))}, SubjectKeyId: []byte{c.key},
		NotBefore: time.Unix(0, 0), NotAfter: time.Unix(int64(c.notAfter), 0), BasicConstraintsValid: true, IsCA: c.ca,
		ExtraExtensions: []pkix.Extension{{Id: zzOIDContent, Value: c.content}},
	}
	if c.ca {
		t.KeyUsage = x509.KeyUsageCertSign
	}
	if c.ctEKU {
		t.ExtKeyUsage = []x509.ExtKeyUsage{x509.ExtKeyUsageCertificateTransparency}
	}
	if c.version > 0 {
		t.SerialNumber = big.NewInt(7 + int64(c.version))
	}
	if c.lax {
		t.ExtraExtensions = append(t.ExtraExtensions, pkix.Extension{Id: asn1.ObjectIdentifier{1, 3, 6, 1, 5, 5, 7, 1, 1}, Value: []byte{0x30, 0}}) // an error, but not fatal
	}
	switch poison {
	case 1:
		t.ExtraExtensions = append(t.ExtraExtensions, pkix.Extension{Id: x509.OIDExtensionCTPoison, Critical: true, Value: asn1.NullBytes})
	case 2:
		t.ExtraExtensions = append(t.ExtraExtensions, pkix.Extension{Id: x509.OIDExtensionCTPoison, Critical: true, Value: []byte{5, 1, 0}})
	case 3:
		t.ExtraExtensions = append(t.ExtraExtensions, pkix.Extension{Id: x509.OIDExtensionCTPoison, Value: asn1.NullBytes})
	}
	p := &x509.Certificate{Subject: pkix.Name{CommonName: string(rune('a' + parent.name))}, SubjectKeyId: []byte{parent.key}}
	b, err := x509.CreateCertificate(rand.Reader, t, p, zzsym.Key(100+int(c.key)).Public(), zzsym.Key(100+int(signer)))
	if err != nil {
		panic(err)
	}
	return b
}

//gosym:model github.com/google/certificate-transparency-go/x509.ParseCertificate
func zzParseCertificate(b []byte) (*x509.Certificate, error) {
	if len(b) < 11 || b[0] != 'C' || b[1]&8 != 0 {
		return nil, errors.New("zz: not a certificate")
	}
	f := b[1]
	c := &x509.Certificate{
		Raw: b, RawTBSCertificate: zzref.Cat([]byte{'T', f, b[2], b[3], b[4], b[6]}, b[7:]), RawSubjectPublicKeyInfo: []byte{'K', b[3]},
		RawSubject: []byte{b[2]}, RawIssuer: []byte{b[4]}, SubjectKeyId: []byte{b[3]}, AuthorityKeyId: []byte{b[6]}, Signature: []byte{b[5]},
		Version: 3, BasicConstraintsValid: true, IsCA: f&1 != 0, NotAfter: time.Unix(int64(b[7])<<24|int64(b[8])<<16|int64(b[9])<<8|int64(b[10]), 0).UTC(),
	}
	if c.AuthorityKeyId[0] == c.SubjectKeyId[0] {
		c.AuthorityKeyId = nil
	}
	if f&2 != 0 {
		c.ExtKeyUsage = []x509.ExtKeyUsage{x509.ExtKeyUsageCertificateTransparency}
	}
	switch f >> 4 & 3 {
	case 1:
		c.Extensions = []pkix.Extension{{Id: x509.OIDExtensionCTPoison, Critical: true, Value: []byte{5, 0}}}
	case 2:
		c.Extensions = []pkix.Extension{{Id: x509.OIDExtensionCTPoison, Critical: true, Value: []byte{5, 1, 0}}}
	case 3:
		c.Extensions = []pkix.Extension{{Id: x509.OIDExtensionCTPoison, Value: []byte{5, 0}}}
	}
	if f&4 != 0 {
		return c, x509.NonFatalErrors{Errors: []error{errors.New("zz: not fatal")}}
	}
	return c, nil
}

//gosym:model (*github.com/google/certificate-transparency-go/x509.Certificate).CheckSignatureFrom
func zzCheckSignature(c, parent *x509.Certificate) error {
	if !parent.IsCA {
		return x509.ConstraintViolationError{}
	}
	if len(c.Signature) != 1 || len(parent.RawSubjectPublicKeyInfo) != 2 || c.Signature[0]&0x7f != parent.RawSubjectPublicKeyInfo[1] {
		return errors.New("zz: bad signature")
	}
	return nil
}

//gosym:model github.com/google/certificate-transparency-go/x509.BuildPrecertTBS
func zzBuildPrecertTBS(tbs []byte, pre *x509.Certificate) ([]byte, error) {
	if len(tbs) < 10 || tbs[0] != 'T' || tbs[1]>>4&3 == 0 {
		return nil, errors.New("zz: no poison")
	}
	out := bytes.Clone(tbs)
	out[1] &^= 3 << 4
	if pre != nil {
		if len(pre.ExtKeyUsage) == 0 {
			return nil, errors.New("zz: not a precertificate signing certificate")
		}
		out[4] = pre.RawIssuer[0]
		if len(pre.AuthorityKeyId) > 0 {
			out[5] = pre.AuthorityKeyId[0]
		}
	}
	return out, nil
}
