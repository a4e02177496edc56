// Package smt reads, checks and evaluates SMT-LIB 2.6 QF_BV scripts, independently of
// the code under verification.
package smt

import (
	"fmt"
	"strings"
)

// Kind of a token or atom.
type Kind int

// Atom kinds.
const (
	List Kind = iota
	Symbol
	Quoted
	Numeral
	Decimal
	Hex
	Binary
	String
	Keyword
	Reserved
)

// X is an s-expression.
type X struct {
	Kind Kind
	Text string
	List []*X
}

func (x *X) String() string {
	if x.Kind != List {
		if x.Kind == Quoted {
			return "|" + x.Text + "|"
		}
		return x.Text
	}
	var s []string
	for _, y := range x.List {
		s = append(s, y.String())
	}
	return "(" + strings.Join(s, " ") + ")"
}

var reservedWords = map[string]bool{}

func init() {
	for _, w := range strings.Fields(`BINARY DECIMAL HEXADECIMAL NUMERAL STRING _ ! as let exists forall match par
		assert check-sat check-sat-assuming declare-const declare-datatype declare-datatypes declare-fun declare-sort
		define-fun define-fun-rec define-funs-rec define-sort echo exit get-assertions get-assignment get-info
		get-model get-option get-proof get-unsat-assumptions get-unsat-core get-value pop push reset
		reset-assertions set-info set-logic set-option`) {
		reservedWords[w] = true
	}
}

func symbolChar(c byte) bool {
	return c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c >= '0' && c <= '9' || strings.IndexByte("~!@$%^&*_-+=<>.?/", c) >= 0
}

// Read reads a script. Comments are returned without the leading semicolon.
func Read(s string) (xs []*X, comments []string, err error) {
	var stack [][]*X
	var top []*X
	i := 0
	push := func(x *X) { top = append(top, x) }
	// delim checks that an atom that ends at i is delimited.
	delim := func(what string) error {
		if i < len(s) && strings.IndexByte(" \t\r\n();", s[i]) < 0 {
			return fmt.Errorf("%s runs into %q", what, s[i])
		}
		return nil
	}
	for i < len(s) {
		c := s[i]
		switch {
		case c == ' ' || c == '\t' || c == '\r' || c == '\n':
			i++
		case c == ';':
			j := i + 1
			for j < len(s) && s[j] != '\n' && s[j] != '\r' {
				if s[j] < 0x20 && s[j] != '\t' || s[j] == 0x7f {
					return nil, nil, fmt.Errorf("control character %#x in a comment", s[j])
				}
				j++
			}
			comments = append(comments, s[i+1:j])
			i = j
		case c == '(':
			stack = append(stack, top)
			top = nil
			i++
		case c == ')':
			if len(stack) == 0 {
				return nil, nil, fmt.Errorf("unbalanced )")
			}
			l := &X{Kind: List, List: top}
			top = append(stack[len(stack)-1], l)
			stack = stack[:len(stack)-1]
			i++
		case c == '|':
			j := strings.IndexByte(s[i+1:], '|')
			if j < 0 {
				return nil, nil, fmt.Errorf("unterminated quoted symbol")
			}
			t := s[i+1 : i+1+j]
			if strings.ContainsAny(t, "\\") {
				return nil, nil, fmt.Errorf("backslash in a quoted symbol")
			}
			push(&X{Kind: Quoted, Text: t})
			i += j + 2
			if err := delim("quoted symbol"); err != nil {
				return nil, nil, err
			}
		case c == '"':
			j := i + 1
			for {
				k := strings.IndexByte(s[j:], '"')
				if k < 0 {
					return nil, nil, fmt.Errorf("unterminated string")
				}
				j += k + 1
				if j < len(s) && s[j] == '"' {
					j++
					continue
				}
				break
			}
			push(&X{Kind: String, Text: s[i:j]})
			i = j
		case c == '#':
			j := i + 1
			if j >= len(s) {
				return nil, nil, fmt.Errorf("bad #")
			}
			kind, digits := Hex, "0123456789abcdefABCDEF"
			switch s[j] {
			case 'x':
			case 'b':
				kind, digits = Binary, "01"
			default:
				return nil, nil, fmt.Errorf("bad constant #%c", s[j])
			}
			j++
			k := j
			for k < len(s) && strings.IndexByte(digits, s[k]) >= 0 {
				k++
			}
			if k == j {
				return nil, nil, fmt.Errorf("empty constant")
			}
			push(&X{Kind: kind, Text: s[i:k]})
			i = k
			if err := delim("constant"); err != nil {
				return nil, nil, err
			}
		case c >= '0' && c <= '9':
			j := i
			for j < len(s) && s[j] >= '0' && s[j] <= '9' {
				j++
			}
			kind := Numeral
			if s[i] == '0' && j > i+1 {
				return nil, nil, fmt.Errorf("numeral %s with leading zeros", s[i:j])
			}
			if j+1 < len(s) && s[j] == '.' && s[j+1] >= '0' && s[j+1] <= '9' {
				kind = Decimal
				j++
				for j < len(s) && s[j] >= '0' && s[j] <= '9' {
					j++
				}
			}
			push(&X{Kind: kind, Text: s[i:j]})
			i = j
			if err := delim("numeral"); err != nil {
				return nil, nil, err
			}
		case c == ':' || symbolChar(c):
			j := i + 1
			for j < len(s) && symbolChar(s[j]) {
				j++
			}
			t := s[i:j]
			kind := Symbol
			if c == ':' {
				kind = Keyword
				if j == i+1 {
					return nil, nil, fmt.Errorf("empty keyword")
				}
			} else if reservedWords[t] {
				kind = Reserved
			}
			push(&X{Kind: kind, Text: t})
			i = j
			if err := delim("symbol"); err != nil {
				return nil, nil, err
			}
		default:
			return nil, nil, fmt.Errorf("illegal character %q", c)
		}
	}
	if len(stack) > 0 {
		return nil, nil, fmt.Errorf("unbalanced (")
	}
	return top, comments, nil
}
