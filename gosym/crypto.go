package main

// High-level models of the cryptographic primitives used by the code under test.

import (
	"crypto"
	"crypto/ecdsa"
	"crypto/elliptic"
	"crypto/x509"
	"fmt"
	"go/types"
	"math/big"

	"golang.org/x/tools/go/ssa"
)

// realKey is the key with secret scalar 0x1000+i on P-256 (the native side of zzsym.Key).
func realKey(i int) *ecdsa.PrivateKey {
	c := elliptic.P256()
	d := new(big.Int).Lsh(big.NewInt(0x1000+int64(i)), 200)
	d.Add(d, big.NewInt(12345))
	k := &ecdsa.PrivateKey{D: d}
	k.Curve = c
	k.X, k.Y = c.ScalarBaseMult(d.Bytes())
	return k
}

// testKey builds an abstract key pair; its identity is the pointer stored in X.
func (g *G) testKey(i int) Value {
	w := g.p.w
	name := fmt.Sprintf("key%d", i)
	if v, ok := g.p.side[name]; ok {
		return v.(Value)
	}
	kt := w.eng.namedType("crypto/ecdsa", "PrivateKey")
	if kt == nil {
		panic(abortf("crypto/ecdsa not loaded"))
	}
	bt := w.eng.namedType("math/big", "Int")
	st := w.zero(kt).(StructV)
	pub := st[0].(StructV)
	var x, y, d Value = w.zero(bt), w.zero(bt), w.zero(bt)
	pub[1], pub[2], st[1] = &x, &y, &d
	g.p.side[fmt.Sprintf("keyid%p", &x)] = i
	var v Value = st
	r := Value(&v)
	g.p.side[name] = r
	return r
}

func (g *G) keyID(pub Value) int {
	st, ok := pub.(StructV)
	if !ok {
		st, ok = (*ptr(pub)).(StructV)
	}
	if !ok {
		panic(abortf("public key %T", pub))
	}
	x, _ := st[1].(*Value)
	id, ok := g.p.side[fmt.Sprintf("keyid%p", x)].(int)
	if !ok {
		panic(abortf("unknown ECDSA key"))
	}
	return id
}

const sigLen = 71

func (g *G) ecdsaSig(id int, digest []*Term) []*Term {
	return g.p.w.splitBytes(g.uf(fmt.Sprintf("H!ecdsa_sig%d", id), 8*sigLen, digest))
}

// rsaSPKI stands for the encoding of the fixed RSA key: any text told apart from the ECDSA keys' will do.
var rsaSPKI = []byte("SubjectPublicKeyInfo of the RSA test key")

func (g *G) rsaKey() Value {
	if v, ok := g.p.side["rsakey"]; ok {
		return v.(Value)
	}
	kt := g.p.w.eng.namedType("crypto/rsa", "PublicKey")
	if kt == nil {
		panic(abortf("crypto/rsa not loaded"))
	}
	v := g.p.w.zero(kt)
	r := Value(&v)
	g.p.side["rsakey"] = r
	return r
}

func (g *G) rsaSig(digest []*Term) []*Term {
	return g.p.w.splitBytes(g.uf("H!rsa_sig", 8*256, digest))
}

func regCrypto(reg func(f Intrinsic, names ...string)) {
	reg(func(g *G, fn *ssa.Function, a []Value) Value {
		if g.p.tags["realsign"] {
			return notHandled{}
		}
		st := (*ptr(a[0])).(StructV)
		return TupleV{termsToSlice(g.ecdsaSig(g.keyID(st[0]), bytesToTerms(a[1].(SliceV)))), Iface{}}
	}, modPath+"/internal/rfc6979.Sign")
	reg(func(g *G, fn *ssa.Function, a []Value) Value {
		g.p.setTag("realsign")
		return nil
	}, zzPath+".RealSign")
	reg(func(g *G, fn *ssa.Function, a []Value) Value {
		sig := bytesToTerms(a[2].(SliceV))
		want := g.ecdsaSig(g.keyID(a[0]), bytesToTerms(a[1].(SliceV)))
		return g.bytesEq(sig, want)
	}, "crypto/ecdsa.VerifyASN1")
	reg(func(g *G, fn *ssa.Function, a []Value) Value {
		return g.rsaKey()
	}, zzPath+".RSAKey")
	reg(func(g *G, fn *ssa.Function, a []Value) Value {
		return termsToSlice(g.rsaSig(bytesToTerms(a[0].(SliceV))))
	}, zzPath+".RSASign")
	reg(func(g *G, fn *ssa.Function, a []Value) Value {
		if g.rsaKey() != a[0] {
			panic(abortf("unknown RSA key"))
		}
		hash := a[1].(*Term)
		dig, sig := bytesToTerms(a[2].(SliceV)), bytesToTerms(a[3].(SliceV))
		if !hash.isConst() || crypto.Hash(hash.v) != crypto.SHA256 {
			panic(abortf("RSA hash %v", hash))
		}
		bad := g.mkErr("crypto/rsa: verification error")
		if len(dig) != 32 || len(sig) != 256 {
			return bad
		}
		if g.p.branch(g.bytesEq(sig, g.rsaSig(dig)), nil) {

			return Iface{}
		}
		return bad
	}, "crypto/rsa.VerifyPKCS1v15")
	spki := func(g *G, fn *ssa.Function, a []Value) Value {
		i := a[0].(Iface)
		id := -1
		if i.t != nil {
			if p, ok := i.t.(*types.Pointer); ok && p.String() == "*crypto/ecdsa.PublicKey" {
				id = g.keyID(i.v)
			} else if i.t.String() == "crypto/ecdsa.PublicKey" {
				// passing the value is an error in the real function
				return TupleV{SliceV(nil), g.mkErr("x509: unsupported public key type")}
			} else if ok && p.String() == "*crypto/rsa.PublicKey" && i.v == g.rsaKey() {
				return TupleV{g.p.w.constBytes(rsaSPKI), Iface{}}
			}
		}
		if id < 0 {
			return notHandled{}
		}
		b, err := x509.MarshalPKIXPublicKey(&realKey(id).PublicKey)
		if err != nil {
			panic(abortf("%v", err))
		}
		return TupleV{g.p.w.constBytes(b), Iface{}}
	}
	reg(spki, "crypto/x509.MarshalPKIXPublicKey", "github.com/google/certificate-transparency-go/x509.MarshalPKIXPublicKey")
}

func (p *Path) setTag(s string) {
	if p.tags == nil {
		p.tags = map[string]bool{}
	}
	p.tags[s] = true
}
