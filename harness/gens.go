package main

import (
	"io"
	"math/rand"
)

// pieces is a reader that hands out its data in random small portions.
type pieces struct {
	b []byte
	r *rand.Rand
	n int
}

func (p *pieces) Read(b []byte) (int, error) {
	p.n++
	if len(p.b) == 0 {
		return 0, io.EOF
	}
	n := 1 + p.r.Intn(37)
	switch p.r.Intn(8) {
	case 0:
		n = 1
	case 1:
		n = 1 + p.r.Intn(4096)
	}
	if n > len(p.b) {
		n = len(p.b)
	}
	if n > len(b) {
		n = len(b)
	}
	copy(b, p.b[:n])
	p.b = p.b[n:]
	if len(p.b) == 0 && p.r.Intn(2) == 0 {
		return n, io.EOF
	}
	return n, nil
}
