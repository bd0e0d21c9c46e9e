package e2e

import (
	"github.com/k0kubun/sqldef/schema"
	"github.com/k0kubun/sqldef/zverif/kit"
	"github.com/k0kubun/sqldef/zverif/sym"
)

// every runs f on every transition of one feature; of n at most variants.
func every(d kit.Dialect, n int, f func(d kit.Dialect, cur, des string)) {
	w := NewWide(d)
	k := sym.Choice(len(w.S))
	s := w.S[k]
	x := len(s.V)
	if x > n {
		x = n
	}
	i, j := sym.Choice(x), sym.Choice(x)
	sym.Assume(w.class(s.Tag, s.L[i], s.L[j]) == "")
	sym.Tag(s.Tag + ": " + s.L[i] + " -> " + s.L[j])
	c, e := w.base(), w.base()
	c[k], e[k] = i, j
	f(d, w.SQL(c), w.SQL(e))
}

// twins runs f on two objects of one kind.
func twins(d kit.Dialect, f func(d kit.Dialect, cur, des string)) {
	w := newTwin(d, twinKinds(d))
	var cur, des [2]bool
	for i := range cur {
		switch sym.Choice(3) {
		case 0:
			sym.Assume(!w.Up)
			cur[i] = true
			sym.Tag("-")
		case 1:
			des[i] = true
			sym.Tag("+")
		case 2:
			cur[i], des[i] = true, true
			sym.Tag("=")
		}
	}
	f(d, w.sql(cur), w.sql(des))
}

func HC07EveryMy()   { every(kit.My, 99, c07) }
func HC07EveryPg()   { every(kit.Pg, 99, c07) }
func HC07EveryLite() { every(kit.Lite, 99, c07) }
func HC07EveryMs()   { every(kit.Ms, 99, c07) }

func HC08EveryMy()   { every(kit.My, 8, c08) }
func HC08EveryPg()   { every(kit.Pg, 8, c08) }
func HC08EveryLite() { every(kit.Lite, 99, c08) }
func HC08EveryMs()   { every(kit.Ms, 8, c08) }

func HC09EveryMy()   { every(kit.My, 4, c09) }
func HC09EveryPg()   { every(kit.Pg, 4, c09) }
func HC09EveryLite() { every(kit.Lite, 99, c09) }
func HC09EveryMs()   { every(kit.Ms, 4, c09) }

func HC10TwinMy()   { twins(kit.My, c10) }
func HC10TwinPg()   { twins(kit.Pg, c10) }
func HC10TwinLite() { twins(kit.Lite, c10) }
func HC10TwinMs()   { twins(kit.Ms, c10) }

func HC17EveryMy()   { every(kit.My, 6, c17) }
func HC17EveryPg()   { every(kit.Pg, 6, c17) }
func HC17EveryLite() { every(kit.Lite, 99, c17) }
func HC17EveryMs()   { every(kit.Ms, 6, c17) }
func HC17TwinMy()    { twins(kit.My, c17) }
func HC17TwinPg()    { twins(kit.Pg, c17) }
func HC17TwinMs()    { twins(kit.Ms, c17) }

func HC08AllMy() { every(kit.My, 99, c08) }
func HC08AllPg() { every(kit.Pg, 99, c08) }
func HC08AllMs() { every(kit.Ms, 99, c08) }

func HC09AllMy() { every(kit.My, 99, c09) }
func HC09AllPg() { every(kit.Pg, 99, c09) }
func HC09AllMs() { every(kit.Ms, 99, c09) }

func HC17AllMy() { every(kit.My, 99, c17) }
func HC17AllPg() { every(kit.Pg, 99, c17) }
func HC17AllMs() { every(kit.Ms, 99, c17) }

func HC11EveryMy()   { every(kit.My, 3, c11) }
func HC11EveryPg()   { every(kit.Pg, 3, c11) }
func HC11EveryLite() { every(kit.Lite, 3, c11) }
func HC11EveryMs()   { every(kit.Ms, 3, c11) }

// pairs plans from any variant of any feature to any other one, supported or not:
// the planner answers or refuses, and does not crash.
func pairs(d kit.Dialect) {
	w := namedWide(d, []string{"jt", "jp", "ja", "jb", "jc", "je", "ji", "jf", "jv", "jg", "jh", "jn"})
	v := [2][]int{w.base(), w.base()}
	for i := range v {
		k := sym.Choice(len(w.S))
		v[i][k] = sym.Choice(len(w.S[k].V))
		sym.Tag(w.S[k].Tag + ": " + w.S[k].L[v[i][k]])
	}
	cur, des := w.SQL(v[0]), w.SQL(v[1])
	sym.Dump(cur + "\n" + des)
	sym.Within(3000000, func() { schema.GenerateIdempotentDDLs(mode(d), des, cur) })
	sym.Cover("end")
}

func HC12PairsMy()   { pairs(kit.My) }
func HC12PairsPg()   { pairs(kit.Pg) }
func HC12PairsLite() { pairs(kit.Lite) }
func HC12PairsMs()   { pairs(kit.Ms) }
