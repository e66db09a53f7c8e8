package zzsym

import (
	"os/signal"
	"syscall"
)

// FsLimit bounds the size of files the process can write; further writes fail.
func FsLimit(n int) {
	signal.Ignore(syscall.SIGXFSZ)
	var l syscall.Rlimit
	syscall.Getrlimit(syscall.RLIMIT_FSIZE, &l)
	l.Cur = l.Max
	if n >= 0 {
		l.Cur = uint64(n)
	}
	syscall.Setrlimit(syscall.RLIMIT_FSIZE, &l)
}
