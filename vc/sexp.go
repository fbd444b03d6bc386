package main

import (
	"fmt"
	"os"
	"strconv"
	"strings"
)

type Sx struct {
	atom string
	str  bool // quoted string
	list []*Sx
	isl  bool
	file string
	line int
}

func (s *Sx) String() string {
	if s.isl {
		var p []string
		for _, x := range s.list {
			p = append(p, x.String())
		}
		return "(" + strings.Join(p, " ") + ")"
	}
	if s.str {
		return strconv.Quote(s.atom)
	}
	return s.atom
}

func (s *Sx) head() string {
	if s.isl && len(s.list) > 0 && !s.list[0].isl && !s.list[0].str {
		return s.list[0].atom
	}
	return ""
}

func (s *Sx) errf(f string, a ...interface{}) {
	panic(fmt.Sprintf("%s:%d: %s", s.file, s.line, fmt.Sprintf(f, a...)))
}

func readSx(file string) []*Sx {
	b, err := os.ReadFile(file)
	if err != nil {
		panic(err)
	}
	return readSrc(file, string(b))
}

func parseSx(src string) *Sx { return readSrc("-", src)[0] }

func readSrc(file, src string) []*Sx {
	pos, line := 0, 1
	var parse func() *Sx
	skip := func() {
		for pos < len(src) {
			c := src[pos]
			if c == '\n' {
				line++
				pos++
			} else if c == ' ' || c == '\t' || c == '\r' {
				pos++
			} else if c == ';' {
				for pos < len(src) && src[pos] != '\n' {
					pos++
				}
			} else {
				return
			}
		}
	}
	parse = func() *Sx {
		skip()
		if pos >= len(src) {
			return nil
		}
		s := &Sx{file: file, line: line}
		c := src[pos]
		switch {
		case c == '(':
			pos++
			s.isl = true
			for {
				skip()
				if pos >= len(src) {
					s.errf("unclosed (")
				}
				if src[pos] == ')' {
					pos++
					return s
				}
				s.list = append(s.list, parse())
			}
		case c == ')':
			s.errf("unexpected )")
		case c == '"':
			j := pos + 1
			for src[j] != '"' {
				if src[j] == '\\' {
					j++
				}
				j++
			}
			u, err := strconv.Unquote(src[pos : j+1])
			if err != nil {
				s.errf("bad string %s", src[pos:j+1])
			}
			pos = j + 1
			s.atom, s.str = u, true
			return s
		default:
			j := pos
			for j < len(src) && !strings.ContainsRune(" \t\r\n();\"", rune(src[j])) {
				j++
			}
			s.atom = src[pos:j]
			pos = j
			return s
		}
		return nil
	}
	var out []*Sx
	for {
		s := parse()
		if s == nil {
			return out
		}
		out = append(out, s)
	}
}
