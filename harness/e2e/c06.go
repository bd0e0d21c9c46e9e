package e2e

import (
	"github.com/k0kubun/sqldef"
	"github.com/k0kubun/sqldef/zverif/kit"
	"github.com/k0kubun/sqldef/zverif/sym"
)

func c06(d kit.Dialect, k int) {
	w := NewWorld(d, true)
	cur, des := w.Pick(k, false)
	db, e := kit.Script(d, w.SQL(cur))
	sym.Assume(e == "")
	want, e := kit.Script(d, w.SQL(des))
	sym.Assume(e == "")
	r := Run(db, w.SQL(des), sqldef.Options{})
	sym.Assert(r.S.Refused == "", "a planned statement is refused: "+r.S.Refused)
	sym.Assert(r.Code == 0, "the run fails")
	drops, adds := 0, 0
	for i := range cur {
		if cur[i] && !des[i] {
			drops++
			if d == kit.My && w.Objs[i].Tag == "foreign key" {
				drops++ // and the index InnoDB made for it
			}
		}
		if !cur[i] && des[i] {
			adds++
		}
	}
	n := 0
	for _, s := range r.S.Writes() {
		if Destructive(d, s) {
			n++
		}
	}
	sym.Assert(n >= drops, "an obsolete object is not dropped")
	sym.Assert(n <= drops, "an object is dropped needlessly")
	sym.Assert(len(r.S.Writes()) == drops+adds, "objects equal on both sides are touched")
	x := kit.Diff(db, want)
	sym.Assert(x == "", x)
	sym.Cover("end")
}

func HC06My()   { c06(kit.My, 3) }
func HC06Pg()   { c06(kit.Pg, 3) }
func HC06Lite() { c06(kit.Lite, 3) }
func HC06Ms()   { c06(kit.Ms, 3) }
