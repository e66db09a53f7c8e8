package ctsubmit

import (
	"context"
	"errors"
	"fmt"
	"os"
	"sync"
	"time"

	"itko.dev/internal/zzsym"
)

var zzErrIO = errors.New("zz: storage failure")

type zzObj struct {
	key  string
	data []byte
}

// zzStore is an in-memory Storage whose operations can be observed and made to fail.
type zzStore struct {
	mu   sync.Mutex
	objs []zzObj
	// fail decides whether an operation fails; nil: never.
	fail func(op, key string) bool
	// onSet runs after each successful write (with the lock held).
	onSet func(key string, old, data []byte)
	sets  int
	slow  bool // natively: delay writes so that a missing wait shows
}

func zzNotExist(key string) error {
	return fmt.Errorf("zz: %q: %w", key, os.ErrNotExist)
}

func (s *zzStore) find(key string) int {
	for i := range s.objs {
		if s.objs[i].key == key {
			return i
		}
	}
	return -1
}

func (s *zzStore) Get(ctx context.Context, key string) ([]byte, error) {
	s.mu.Lock()
	defer s.mu.Unlock()
	if s.fail != nil && s.fail("get", key) {
		return nil, zzErrIO
	}
	i := s.find(key)
	if i < 0 {
		return nil, zzNotExist(key)
	}
	return append([]byte{}, s.objs[i].data...), nil
}

func (s *zzStore) Set(ctx context.Context, key string, data []byte) error {
	if s.slow && !zzsym.Symbolic() {
		time.Sleep(15 * time.Millisecond)
	}
	s.mu.Lock()
	defer s.mu.Unlock()
	s.sets++
	if s.fail != nil && s.fail("set", key) {
		return zzErrIO
	}
	s.put(key, data)
	return nil
}

func (s *zzStore) put(key string, data []byte) {
	c := append([]byte{}, data...)
	i := s.find(key)
	var old []byte
	if i < 0 {
		s.objs = append(s.objs, zzObj{key, c})
	} else {
		old = s.objs[i].data
		s.objs[i].data = c
	}
	if s.onSet != nil {
		s.onSet(key, old, c)
	}
}

func (s *zzStore) Exists(ctx context.Context, key string) (bool, error) {
	s.mu.Lock()
	defer s.mu.Unlock()
	if s.fail != nil && s.fail("exists", key) {
		return false, zzErrIO
	}
	return s.find(key) >= 0, nil
}

func (s *zzStore) peek(key string) ([]byte, bool) {
	i := s.find(key)
	if i < 0 {
		return nil, false
	}
	return s.objs[i].data, true
}
