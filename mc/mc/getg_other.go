//go:build !amd64

package main

import (
	"bytes"
	"runtime"
	"strconv"
)

func goid() uint64 {
	var b [64]byte
	n := runtime.Stack(b[:], false)
	f := bytes.Fields(b[:n])
	id, _ := strconv.ParseUint(string(f[1]), 10, 64)
	return id
}
