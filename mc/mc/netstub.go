package main

import (
	"errors"
	"fmt"
	"io"
	"net/http"
	"os"
	"strings"
	"sync"
	"sync/atomic"
)

// web is the only network there is: http.DefaultTransport is replaced, nothing leaves the process.
type webT struct {
	mu    sync.Mutex
	hosts map[string]*webHost
	stray int64
}

// webHost serves the documents of one case.
type webHost struct {
	mu     sync.Mutex
	pages  map[string]*webPage // path (with query) -> page
	log    []string
	opened int64
	closed int64
}

type webPage struct {
	Status  int
	Body    string
	BodyErr string // the read fails with this after Body
	ConnErr string // the request fails
	Chunk   int    // bytes per read (0: all)
	Goto    string // Location header
}

var web = &webT{hosts: map[string]*webHost{}}

func init() {
	http.DefaultTransport = web
	http.DefaultClient.Transport = web
	os.Unsetenv("HTTP_PROXY")
	os.Unsetenv("http_proxy")
}

func (w *webT) host(name string) *webHost {
	h := &webHost{pages: map[string]*webPage{}}
	w.mu.Lock()
	w.hosts[name] = h
	w.mu.Unlock()
	return h
}

func (w *webT) drop(name string) {
	w.mu.Lock()
	delete(w.hosts, name)
	w.mu.Unlock()
}

type body struct {
	r    io.Reader
	h    *webHost
	once sync.Once
}

func (b *body) Read(p []byte) (int, error) { return b.r.Read(p) }
func (b *body) Close() error {
	b.once.Do(func() {
		if b.h != nil {
			atomic.AddInt64(&b.h.closed, 1)
		}
	})
	return nil
}

type errReader struct{ err string }

func (e errReader) Read([]byte) (int, error) {
	if e.err == "EOF" {
		return 0, io.ErrUnexpectedEOF
	}
	return 0, errors.New(e.err)
}

// RoundTrip answers from the registered pages, 404 otherwise.
func (w *webT) RoundTrip(req *http.Request) (*http.Response, error) {
	w.mu.Lock()
	h := w.hosts[req.URL.Host]
	w.mu.Unlock()
	pg := &webPage{Status: 404, Body: "not found"}
	if h != nil {
		h.mu.Lock()
		k := req.URL.RequestURI()
		h.log = append(h.log, k)
		if p, ok := h.pages[k]; ok {
			pg = p
		}
		h.mu.Unlock()
	} else {
		atomic.AddInt64(&w.stray, 1)
	}
	if pg.ConnErr != "" {
		return nil, errors.New(pg.ConnErr)
	}
	var r io.Reader = strings.NewReader(pg.Body)
	if pg.Chunk > 0 {
		r = &chunked{pg.Body, pg.Chunk}
	}
	hdr := http.Header{}
	if pg.Goto != "" {
		hdr.Set("Location", pg.Goto)
	}
	if pg.BodyErr != "" {
		r = io.MultiReader(r, errReader{pg.BodyErr})
	}
	if h != nil {
		atomic.AddInt64(&h.opened, 1)
	}
	return &http.Response{Status: fmt.Sprintf("%d %s", pg.Status, http.StatusText(pg.Status)), StatusCode: pg.Status, Proto: "HTTP/1.1", ProtoMajor: 1, ProtoMinor: 1,
		Header: hdr, Body: &body{r: r, h: h}, ContentLength: -1, Request: req}, nil
}

// chunked delivers a text a few bytes at a time.
type chunked struct {
	rest string
	n    int
}

func (c *chunked) Read(p []byte) (int, error) {
	if c.rest == "" {
		return 0, io.EOF
	}
	n := copy(p, c.rest[:min(c.n, len(c.rest))])
	c.rest = c.rest[n:]
	return n, nil
}
