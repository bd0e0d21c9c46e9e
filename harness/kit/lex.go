// Package kit is an independent reference: a tiny SQL database (schema only) for
// the four dialects, used as the oracle of what a statement means and as the
// server behind the real adapters.
package kit

import "strings"

// Dialect selects quoting and semantics.
type Dialect int

const (
	My Dialect = iota
	Pg
	Lite
	Ms
)

// Tok is a token: K is w(ord) q(uoted identifier) s(tring) n(umber) p(unctuation).
type Tok struct {
	K    byte
	S    string // text (unquoted for q and s)
	L    string // lower case, for w
	P, E int    // where it stands in the text
}

type execErr struct{ msg string }

// ErrMsg is the reason of the last failed Exec.
func bad(msg string) { panic(execErr{msg}) }

func isLetter(c byte) bool {
	return c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c == '_' || c == '@' || c >= 0x80
}
func isDigit(c byte) bool { return c >= '0' && c <= '9' }
func isSpace(c byte) bool { return c == ' ' || c == '\n' || c == '\t' || c == '\r' }

// Lex splits a statement into tokens the way the dialect does.
func Lex(d Dialect, s string) []Tok {
	var out []Tok
	i := 0
	for i < len(s) {
		c := s[i]
		if isSpace(c) {
			i++
			continue
		}
		if isLetter(c) {
			j := i + 1
			for j < len(s) && (isLetter(s[j]) || isDigit(s[j]) || s[j] == '$') {
				j++
			}
			out = append(out, Tok{K: 'w', S: s[i:j], L: strings.ToLower(s[i:j]), P: i, E: j})
			i = j
			continue
		}
		if isDigit(c) {
			j := i + 1
			for j < len(s) && (isDigit(s[j]) || s[j] == '.') {
				j++
			}
			out = append(out, Tok{K: 'n', S: s[i:j], P: i, E: j})
			i = j
			continue
		}
		var close byte
		if c == '`' && (d == My || d == Lite || d == Ms) {
			close = '`'
		} else if c == '"' && d != My {
			close = '"'
		} else if c == '[' && (d == Ms || d == Lite) {
			close = ']'
		} else if c == '\'' || c == '"' {
			close = c
		}
		if close == 0 {
			if c == '-' && i+1 < len(s) && s[i+1] == '-' {
				for i < len(s) && s[i] != '\n' {
					i++
				}
				continue
			}
			if (c == '!' || c == '<' || c == '>' || c == ':') && i+1 < len(s) {
				e := s[i+1]
				if e == '=' || e == '>' || e == ':' {
					out = append(out, Tok{K: 'p', S: s[i : i+2], P: i, E: i + 2})
					i += 2
					continue
				}
			}
			out = append(out, Tok{K: 'p', S: s[i : i+1], P: i, E: i + 1})
			i++
			continue
		}
		str := c == '\'' || (c == '"' && d == My)
		esc := str && d == My
		var buf []byte
		j := i + 1
		done := false
		for j < len(s) {
			e := s[j]
			if e == close {
				if j+1 < len(s) && s[j+1] == close {
					buf = append(buf, close)
					j += 2
					continue
				}
				done = true
				break
			}
			if esc && e == '\\' && j+1 < len(s) {
				buf = append(buf, unescape(s[j+1])...)
				j += 2
				continue
			}
			buf = append(buf, e)
			j++
		}
		if !done {
			bad("unterminated quote")
		}
		k := byte('q')
		if str {
			k = 's'
		}
		out = append(out, Tok{K: k, S: string(buf), P: i, E: j + 1})
		i = j + 1
	}
	return out
}

func unescape(c byte) []byte {
	switch c {
	case '0':
		return []byte{0}
	case 'b':
		return []byte{8}
	case 'n':
		return []byte{10}
	case 'r':
		return []byte{13}
	case 't':
		return []byte{9}
	case 'Z':
		return []byte{26}
	case '%', '_':
		return []byte{'\\', c}
	}
	return []byte{c}
}

// Canon is the canonical text of a token sequence: the meaning of an expression
// or a query body up to spacing, letter case of words and identifier quoting.
func Canon(ts []Tok) string {
	var b []string
	for _, t := range ts {
		switch t.K {
		case 'w':
			b = append(b, t.L)
		case 's':
			b = append(b, "'"+t.S+"'")
		default:
			b = append(b, t.S)
		}
	}
	return strings.Join(b, " ")
}

// SplitTop splits a script at top-level semicolons.
func SplitTop(d Dialect, s string) []string {
	var out []string
	st, i := 0, 0
	for i < len(s) {
		c := s[i]
		var close byte
		switch {
		case c == '\'' || c == '"':
			close = c
		case c == '`' && d != Pg:
			close = '`'
		case c == '[' && (d == Ms):
			close = ']'
		}
		if close != 0 {
			j := i + 1
			for j < len(s) && s[j] != close {
				if d == My && s[j] == '\\' && close != '`' {
					j++
				}
				j++
			}
			i = j + 1
			continue
		}
		if c == ';' {
			if t := strings.TrimSpace(s[st:i]); t != "" {
				out = append(out, t)
			}
			st = i + 1
		}
		i++
	}
	if st < len(s) {
		if t := strings.TrimSpace(s[st:]); t != "" {
			out = append(out, t)
		}
	}
	return out
}
