package main

import (
	"errors"
	"io"
	"net/http"
	"os"
	"strings"
	"sync"
	"time"
)

// memFS is an in-memory http.FileSystem that records and injects faults.
type memFS struct {
	mu     sync.Mutex
	files  map[string]string
	log    []string
	opened int
	closed int
	fail   func(name string) *fault
}

// fault makes a read misbehave.
type fault struct {
	OpenErr string
	ReadErr string // after At bytes
	At      int
	Chunk   int  // bytes per read (0: all)
	EOFWith bool // the last bytes come together with io.EOF
	ZeroNil bool // a read of 0 bytes without error precedes every read
}

type memFile struct {
	fs   *memFS
	data string
	pos  int
	f    *fault
	zero bool
	done bool
}

// Open opens a file.
func (m *memFS) Open(name string) (http.File, error) {
	m.mu.Lock()
	defer m.mu.Unlock()
	m.log = append(m.log, name)
	var f *fault
	if m.fail != nil {
		f = m.fail(name)
	}
	if f == nil {
		f = &fault{}
	}
	if f.OpenErr != "" {
		return nil, errors.New(f.OpenErr)
	}
	d, ok := m.files[name]
	if !ok {
		return nil, os.ErrNotExist
	}
	m.opened++
	return &memFile{fs: m, data: d, f: f}, nil
}

func (f *memFile) Close() error {
	f.fs.mu.Lock()
	defer f.fs.mu.Unlock()
	if f.done {
		return os.ErrClosed
	}
	f.done = true
	f.fs.closed++
	return nil
}

func (f *memFile) Read(p []byte) (int, error) {
	if f.done {
		return 0, os.ErrClosed
	}
	if f.f.ZeroNil && !f.zero {
		f.zero = true
		return 0, nil
	}
	f.zero = false
	rest := f.data[f.pos:]
	if f.f.ReadErr != "" {
		rest = f.data[f.pos:min(f.f.At, len(f.data))]
	}
	if f.f.Chunk > 0 && len(rest) > f.f.Chunk {
		rest = rest[:f.f.Chunk]
	}
	if len(rest) == 0 {
		if f.f.ReadErr != "" {
			if f.f.ReadErr == "unexpected EOF" {
				return 0, io.ErrUnexpectedEOF
			}
			return 0, errors.New(f.f.ReadErr)
		}
		return 0, io.EOF
	}
	n := copy(p, rest)
	f.pos += n
	if f.f.EOFWith && f.pos == len(f.data) && f.f.ReadErr == "" {
		return n, io.EOF
	}
	return n, nil
}

func (f *memFile) Seek(int64, int) (int64, error)     { return 0, errors.New("no seek") }
func (f *memFile) Readdir(int) ([]os.FileInfo, error) { return nil, errors.New("no readdir") }
func (f *memFile) Stat() (os.FileInfo, error)         { return memInfo{f}, nil }

type memInfo struct{ f *memFile }

func (i memInfo) Name() string       { return "f" }
func (i memInfo) Size() int64        { return int64(len(i.f.data)) }
func (i memInfo) Mode() os.FileMode  { return 0o644 }
func (i memInfo) ModTime() time.Time { return time.Unix(0, 0) }
func (i memInfo) IsDir() bool        { return false }
func (i memInfo) Sys() interface{}   { return nil }

var _ = strings.TrimSpace
