package main

import (
	"fmt"
	"strings"
)

// S-expressions: the contract language's concrete syntax
type sx struct {
	atom string
	str  bool // string literal
	list []*sx
	isL  bool
	line int
	file string
}

func (s *sx) String() string {
	if !s.isL {
		if s.str {
			return fmt.Sprintf("%q", s.atom)
		}
		return s.atom
	}
	var p []string
	for _, e := range s.list {
		p = append(p, e.String())
	}
	return "(" + strings.Join(p, " ") + ")"
}

func (s *sx) head() string {
	if s.isL && len(s.list) > 0 && !s.list[0].isL {
		return s.list[0].atom
	}
	return ""
}

func parseSx(file, src string) ([]*sx, error) {
	var stack [][]*sx
	var lines []int
	cur := []*sx{}
	line := 1
	i := 0
	for i < len(src) {
		c := src[i]
		switch {
		case c == '\n':
			line++
			i++
		case c == ' ' || c == '\t' || c == '\r':
			i++
		case c == ';':
			for i < len(src) && src[i] != '\n' {
				i++
			}
		case c == '(':
			stack = append(stack, cur)
			lines = append(lines, line)
			cur = []*sx{}
			i++
		case c == ')':
			if len(stack) == 0 {
				return nil, fmt.Errorf("%s:%d: unbalanced )", file, line)
			}
			n := &sx{list: cur, isL: true, line: lines[len(lines)-1], file: file}
			cur = append(stack[len(stack)-1], n)
			stack = stack[:len(stack)-1]
			lines = lines[:len(lines)-1]
			i++
		case c == '"':
			j := i + 1
			var sb strings.Builder
			for j < len(src) && src[j] != '"' {
				if src[j] == '\\' && j+1 < len(src) {
					j++
					if src[j] == 'n' {
						sb.WriteByte('\n')
						j++
						continue
					}
				}
				sb.WriteByte(src[j])
				j++
			}
			cur = append(cur, &sx{atom: sb.String(), str: true, line: line, file: file})
			i = j + 1
		default:
			j := i
			for j < len(src) && !strings.ContainsRune(" \t\r\n()\";", rune(src[j])) {
				j++
			}
			cur = append(cur, &sx{atom: src[i:j], line: line, file: file})
			i = j
		}
	}
	if len(stack) != 0 {
		return nil, fmt.Errorf("%s: unbalanced ( opened at line %d", file, lines[len(lines)-1])
	}
	return cur, nil
}
