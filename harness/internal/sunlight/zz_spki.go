package sunlight

import (
	"crypto/x509"

	"itko.dev/internal/zzsym"
)

func zzSPKI(i int) []byte {
	b, err := x509.MarshalPKIXPublicKey(zzsym.Key(i).Public())
	if err != nil {
		panic(err)
	}
	return b
}
