package smoke

import (
	"fmt"
	"strings"

	"github.com/k0kubun/sqldef/schema"
	"github.com/k0kubun/sqldef/zverif/sym"
)

func word(n int) string {
	b := make([]byte, n)
	for i := range b {
		b[i] = sym.ByteRange('g', 'z')
	}
	return string(b)
}

// HFmt: formatting and strings agree with native.
func HFmt() {
	w := word(2)
	s := fmt.Sprintf("%s|%q|%v|%d|%5s|%-5s|%x|%+v", w, w, []string{w, "x"}, sym.Int(0, 200), w, w, w, struct {
		A string
		B *int
	}{w, nil})
	s += strings.ToUpper(w) + strings.Replace(w, "g", "--", -1)
	sym.Observe(s)
	sym.Assert(len(s) > 3, "len")
	sym.Cover("end")
}

// HBad must be violated.
func HBad() {
	a, b := sym.Byte(), sym.Byte()
	x := int(a)*3 + int(b)
	sym.Assert(x != 700, "sum")
}

// HGen: adding a column.
func HGen() {
	t, c1, c2 := word(1), word(1), word(1)
	sym.Assume(c1 != c2)
	cur := "CREATE TABLE `" + t + "` (`" + c1 + "` int NOT NULL)"
	des := "CREATE TABLE `" + t + "` (`" + c1 + "` int NOT NULL, `" + c2 + "` varchar(40))"
	ddls, err := schema.GenerateIdempotentDDLs(schema.GeneratorModeMysql, des, cur)
	sym.Assert(err == nil, "err")
	sym.Observe(strings.Join(ddls, ";"))
	sym.Assert(len(ddls) == 1, "one")
	sym.Cover("end")
}
