// Package stl states how meshes are laid out in files (C08). The outside world is a file read at a
// position and a list of what was written.
package stl

import (
	"bufio"
	"encoding/binary"
	"io"
	"math"
	"os"
	"strings"

	. "github.com/l1va/goosli/primitives"
)

// kinds of written parts
const (
	zeros = iota
	u16
	u32
	f32
)

type part struct {
	Kind int
	V    float64
}

var (
	out  []part // what was written
	done int    // how much of it was flushed
	at   int64  // where the file is read next
)

// contents of the file being read
func byteAt(i int64) uint8 { panic("") }

// the four bytes as a number, the first one lowest
func little(a, b, c, d uint8) uint32 { panic("") }

func put(kind int, v float64) { out = append(out, part{kind, v}) }
func flush()                  { done = len(out) }
func fill(b []byte) {
	for i := range b {
		b[i] = byteAt(at + int64(i))
	}
	at += int64(len(b))
}
func le(b []byte) uint32 { return little(b[0], b[1], b[2], b[3]) }
func get32() uint32 {
	r := little(byteAt(at), byteAt(at+1), byteAt(at+2), byteAt(at+3))
	at += 4
	return r
}
func getF() float32 { return math.Float32frombits(get32()) }
func skip(n int64)  { at += n }
func seek(n int64)  { at = n }

// loaders, as LoadSTL sees them
func facets(file *os.File, n int) (*Mesh, error) { panic("") }
func text(file *os.File) (*Mesh, error)          { panic("") }

// SLoad: a file as long as its facet count says is binary and read from behind its header, any
// other file is text and read from its start.
func SLoad(path string) (*Mesh, error) {
	file, err := os.Open(path)
	if err != nil {
		return nil, err
	}
	info, err := file.Stat()
	if err != nil {
		return nil, err
	}
	skip(80)
	n := get32()
	if info.Size() == 84+50*int64(n) {
		return facets(file, int(n))
	}
	seek(0)
	return text(file)
}

// SFacets: 50 bytes per facet: the normal (left out), three vertices of three little-endian
// 32-bit floats each, an attribute of two bytes.
func SFacets(file *os.File, n int) (*Mesh, error) {
	b := make([]byte, n*50)
	if _, err := io.ReadFull(file, b); err != nil {
		return nil, err
	}
	vertex := func(k int) Point {
		f := func(i int) float64 { return float64(math.Float32frombits(le(b[i : i+4]))) }
		return Point{X: f(k), Y: f(k + 4), Z: f(k + 8)}
	}
	var ts []Triangle
	for i := 0; i < n; i++ {
		ts = append(ts, NewTriangle(vertex(50*i+12), vertex(50*i+24), vertex(50*i+36)))
	}
	m := NewMesh(ts)
	return &m, nil
}

// SText: three vertex lines make a triangle.
func SText(file *os.File) (*Mesh, error) {
	var ts []Triangle
	var a, b Point
	n := 0
	in := bufio.NewScanner(file)
	for in.Scan() {
		l := strings.TrimSpace(in.Text())
		if len(l) < 12 || l[0] != 'v' {
			continue
		}
		w := strings.Fields(l[7:])
		if len(w) != 3 {
			continue
		}
		p := Point{X: ParseFloat(w[0]), Y: ParseFloat(w[1]), Z: ParseFloat(w[2])}
		if n%3 == 0 {
			a = p
		} else if n%3 == 1 {
			b = p
		} else {
			ts = append(ts, NewTriangle(a, b, p))
		}
		n++
	}
	m := NewMesh(ts)
	return &m, in.Err()
}

// STextCount: the same with a counter that starts over.
func STextCount(file *os.File) (*Mesh, error) {
	var ts []Triangle
	var v [3]Point
	n := 0
	in := bufio.NewScanner(file)
	for in.Scan() {
		l := strings.TrimSpace(in.Text())
		if len(l) < 12 || l[0] != 'v' {
			continue
		}
		w := strings.Fields(l[7:])
		if len(w) != 3 {
			continue
		}
		v[n] = Point{X: ParseFloat(w[0]), Y: ParseFloat(w[1]), Z: ParseFloat(w[2])}
		n++
		if n == 3 {
			ts = append(ts, NewTriangle(v[0], v[1], v[2]))
			n = 0
		}
	}
	m := NewMesh(ts)
	return &m, in.Err()
}

// STextList: the same with a list of the vertices read so far.
func STextList(file *os.File) (*Mesh, error) {
	var ts []Triangle
	var v []Point
	in := bufio.NewScanner(file)
	for in.Scan() {
		l := strings.TrimSpace(in.Text())
		if len(l) < 12 || l[0] != 'v' {
			continue
		}
		w := strings.Fields(l[7:])
		if len(w) != 3 {
			continue
		}
		v = append(v, Point{X: ParseFloat(w[0]), Y: ParseFloat(w[1]), Z: ParseFloat(w[2])})
		if len(v) == 3 {
			ts = append(ts, NewTriangle(v[0], v[1], v[2]))
			v = v[:0]
		}
	}
	m := NewMesh(ts)
	return &m, in.Err()
}

// STriangle keeps the corners in the order given.
func STriangle(a, b, c Point) Triangle {
	return Triangle{N: a.VectorTo(b).Cross(a.VectorTo(c)), P1: a, P2: b, P3: c}
}
func SFillTriangle(t *Triangle, a, b, c Point) { *t = STriangle(a, b, c) }

// SSave: the header, then per facet the normal, the vertices and the attribute.
func SSave(path string, mesh *Mesh) error {
	put(zeros, 80)
	put(u32, float64(uint32(len(mesh.Triangles))))
	for _, t := range mesh.Triangles {
		put(f32, float64(float32(t.N.X)))
		put(f32, float64(float32(t.N.Y)))
		put(f32, float64(float32(t.N.Z)))
		for _, p := range []Point{t.P1, t.P2, t.P3} {
			put(f32, float64(float32(p.X)))
			put(f32, float64(float32(p.Y)))
			put(f32, float64(float32(p.Z)))
		}
		put(u16, 0)
	}
	flush()
	return nil
}

var _ = binary.LittleEndian
