package zzsym

import "unicode/utf8"

// Models of UTF-8 decoding that branch where package unicode/utf8 looks bytes up in tables.

//gosym:model unicode/utf8.DecodeRune
func decodeRune(p []byte) (rune, int) {
	n := len(p)
	if n < 1 {
		return utf8.RuneError, 0
	}
	b0 := p[0]
	if b0 < 0x80 {
		return rune(b0), 1
	}
	if b0 < 0xc2 || b0 > 0xf4 || n < 2 {
		return utf8.RuneError, 1
	}
	lo, hi := byte(0x80), byte(0xbf)
	switch b0 {
	case 0xe0:
		lo = 0xa0
	case 0xed:
		hi = 0x9f
	case 0xf0:
		lo = 0x90
	case 0xf4:
		hi = 0x8f
	}
	b1 := p[1]
	if b1 < lo || b1 > hi {
		return utf8.RuneError, 1
	}
	if b0 < 0xe0 {
		return rune(b0&0x1f)<<6 | rune(b1&0x3f), 2
	}
	if n < 3 || p[2] < 0x80 || p[2] > 0xbf {
		return utf8.RuneError, 1
	}
	if b0 < 0xf0 {
		return rune(b0&0xf)<<12 | rune(b1&0x3f)<<6 | rune(p[2]&0x3f), 3
	}
	if n < 4 || p[3] < 0x80 || p[3] > 0xbf {
		return utf8.RuneError, 1
	}
	return rune(b0&7)<<18 | rune(b1&0x3f)<<12 | rune(p[2]&0x3f)<<6 | rune(p[3]&0x3f), 4
}

//gosym:model unicode/utf8.DecodeRuneInString
func decodeRuneInString(s string) (rune, int) {
	if len(s) > 4 {
		s = s[:4]
	}
	return decodeRune([]byte(s))
}

//gosym:model unicode/utf8.Valid
func utf8Valid(p []byte) bool {
	for len(p) > 0 {
		if p[0] < 0x80 {
			p = p[1:]
			continue
		}
		r, n := decodeRune(p)
		if r == utf8.RuneError && n == 1 {
			return false
		}
		p = p[n:]
	}
	return true
}

//gosym:model unicode/utf8.ValidString
func utf8ValidString(s string) bool { return utf8Valid([]byte(s)) }
