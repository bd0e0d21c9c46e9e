package e2e

import (
	"github.com/k0kubun/sqldef"
	"github.com/k0kubun/sqldef/zverif/kit"
	"github.com/k0kubun/sqldef/zverif/sym"
)

const nothing = "-- Nothing is modified --\n"

// idle: a database with the schema is left alone, and so is one whose own export
// is the desired schema.
func (w *Wide) idle(x string) {
	db := script(w.D, x)
	r := Run(db, x, sqldef.Options{})
	sym.Assert(r.Code == 0, "the run fails")
	sym.Assert(r.Out == nothing, "a schema differs from itself")
	r = Run(db, x, sqldef.Options{Export: true})
	sym.Assert(r.Code == 0, "the export fails")
	r = Run(db, r.Out, sqldef.Options{})
	sym.Assert(r.Code == 0, "the export is not accepted")
	sym.Assert(r.Out == nothing, "the export differs from the database")
	sym.Cover("end")
}

func idle(d kit.Dialect, bundle bool, n int) {
	w := NewWide(d)
	if bundle {
		w.S = nil
		w.bundle()
	}
	v := w.base()
	k := 0
	for i := 0; i < n; i++ {
		k += sym.Choice(len(w.S) - k - (n - 1 - i))
		s := w.S[k]
		v[k] = sym.Choice(len(s.V))
		sym.Tag(s.Tag + ": " + s.L[v[k]])
		sym.Assume(n == 1 || d != kit.Ms || s.Tag != "index" || s.L[v[k]] != "where") // see HC01Ms
		k++
	}
	w.idle(w.SQL(v))
}

func HC01My()       { idle(kit.My, false, 1) }
func HC01Pg()       { idle(kit.Pg, false, 1) }
func HC01Lite()     { idle(kit.Lite, false, 2) }
func HC01Ms()       { idle(kit.Ms, false, 1) }
func HC01BundleMy() { idle(kit.My, true, 1) }
func HC01BundlePg() { idle(kit.Pg, true, 1) }
func HC01BundleMs() { idle(kit.Ms, true, 1) }

func HC01TwoMy() { idle(kit.My, false, 2) }
func HC01TwoPg() { idle(kit.Pg, false, 2) }
func HC01TwoMs() { idle(kit.Ms, false, 2) }
