package kit

import "github.com/k0kubun/sqldef/zverif/sym"

// Name is an arbitrary name of n letters of a set no SQL keyword is made of (and
// that starts no special literal, as x'..' does).
func Name(n int) string {
	b := make([]byte, n)
	for i := range b {
		b[i] = sym.ByteIn("jkqvwyz")
	}
	return string(b)
}

// Names are k pairwise different names.
func Names(k, n int) []string {
	l := make([]string, k)
	for i := range l {
		l[i] = Name(n)
		for j := 0; j < i; j++ {
			sym.Assume(l[i] != l[j])
		}
	}
	return l
}

// Digits is an arbitrary number of n digits without leading zero.
func Digits(n int) string {
	b := make([]byte, n)
	for i := range b {
		b[i] = sym.ByteRange('0', '9')
	}
	if n > 1 {
		b[0] = sym.ByteRange('1', '9')
	}
	return string(b)
}

// Q quotes a name for the dialect.
func Q(d Dialect, n string) string {
	switch d {
	case My:
		return "`" + n + "`"
	case Ms:
		return "[" + n + "]"
	}
	return `"` + n + `"`
}

// Fold is the tag of a dialect.
func (d Dialect) String() string {
	return [...]string{"mysql", "postgres", "sqlite3", "mssql"}[d]
}
