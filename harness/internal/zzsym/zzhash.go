package zzsym

import (
	"crypto/sha256"
	"hash"
)

type sha256Hash struct{ b []byte }

func (h *sha256Hash) Write(p []byte) (int, error) {
	h.b = append(h.b, p...)
	return len(p), nil
}

func (h *sha256Hash) Sum(b []byte) []byte {
	d := sha256.Sum256(h.b)
	return append(b, d[:]...)
}

func (h *sha256Hash) Reset()         { h.b = nil }
func (h *sha256Hash) Size() int      { return 32 }
func (h *sha256Hash) BlockSize() int { return 64 }

//gosym:model crypto/sha256.New
func zzSHA256New() hash.Hash { return &sha256Hash{} }
