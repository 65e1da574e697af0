package main

import (
	"fmt"
	"strings"
)

// ---------------------------------------------------------------------------
// Ropes: byte strings as sequences of segments of known origin. Used by the
// analysis of the README tool (C20).
// ---------------------------------------------------------------------------

const (
	provStdin   = 1
	provFile    = 2 // bytes of a file, in an order that is not tracked
	provUnknown = 4
)

type seg struct {
	kind byte // 'c' constant, 'f' bytes [from,to) of a file, 'o' opaque
	s    string
	file string
	from *Lin
	to   *Lin
	id   string
	n    *Lin
	prov int
	nl   bool // 'o': empty or ends with a newline
}

type rope []seg

func constRope(s string) rope {
	if s == "" {
		return nil
	}
	return rope{{kind: 'c', s: s}}
}

func (s seg) size() *Lin {
	switch s.kind {
	case 'c':
		return K(int64(len(s.s)))
	case 'f':
		return s.to.Sub(s.from)
	}
	return s.n
}

func (r rope) size() *Lin {
	n := K(0)
	for _, s := range r {
		n = n.Add(s.size())
	}
	return n
}

func (s seg) key() string {
	switch s.kind {
	case 'c':
		return fmt.Sprintf("%q", s.s)
	case 'f':
		return "file(" + s.file + ")[" + s.from.String() + ":" + s.to.String() + "]"
	}
	return s.id
}

func (r rope) key() string {
	var p []string
	for _, s := range r {
		p = append(p, s.key())
	}
	return strings.Join(p, "+")
}

func (r rope) constant() (string, bool) {
	var b strings.Builder
	for _, s := range r {
		if s.kind != 'c' {
			return "", false
		}
		b.WriteString(s.s)
	}
	return b.String(), true
}

func (r rope) prov() int {
	p := 0
	for _, s := range r {
		switch s.kind {
		case 'f':
			p |= provFile
			if s.file == "<stdin>" {
				p |= provStdin
			}
		case 'o':
			p |= s.prov
		}
	}
	return p
}

// cat concatenates and merges neighbours.
func (r rope) cat(o rope, eq func(a, b *Lin) bool) rope {
	out := append(rope(nil), r...)
	for _, s := range o {
		if k, ok := s.size().isConst(); ok && k == 0 {
			continue
		}
		if n := len(out); n > 0 {
			l := &out[n-1]
			if l.kind == 'c' && s.kind == 'c' {
				t := *l
				t.s += s.s
				out[n-1] = t
				continue
			}
			if l.kind == 'f' && s.kind == 'f' && l.file == s.file && eq(l.to, s.from) {
				t := *l
				t.to = s.to
				out[n-1] = t
				continue
			}
		}
		out = append(out, s)
	}
	return out
}
