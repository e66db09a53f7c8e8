package zzsym

import "fmt"

// MustReturn calls f, which must not end the process.
func MustReturn(msg string, f func()) {
	done := false
	AtEnd(func() { Assert(done, msg) })
	if !Symbolic() && concerns(msg) {
		fmt.Printf("ZZ-PENDING %s\n", msg)
	}
	f()
	done = true
	if !Symbolic() {
		fmt.Println("ZZ-RETURNED")
	}
}
