package kit

import "strings"

// Diff compares the schema reached with the schema asked for; "" when they agree.
// Attributes the desired text leaves open (integer display width, character set,
// collation, constraint names) are not compared.
func Diff(cur, des *DB) string {
	for _, t := range des.Tables {
		u := cur.T(t.Schema, t.Name)
		if u == nil {
			return "a desired table is missing"
		}
		if d := DiffTable(cur.D, u, t); d != "" {
			return d
		}
	}
	for _, t := range cur.Tables {
		if des.T(t.Schema, t.Name) == nil {
			return "an obsolete table remains"
		}
	}
	for _, v := range des.Views {
		u := cur.V(v.Schema, v.Name)
		if u == nil {
			return "a desired view is missing"
		}
		if u.Def != v.Def {
			return "a view has the wrong definition"
		}
	}
	for _, v := range cur.Views {
		if des.V(v.Schema, v.Name) == nil {
			return "an obsolete view remains"
		}
	}
	for _, g := range des.Triggers {
		var o *Trigger
		for _, x := range cur.Triggers {
			if x.Name == g.Name {
				o = x
			}
		}
		if o == nil {
			return "a desired trigger is missing"
		}
		if o.Table != g.Table || o.Time != g.Time || o.Event != g.Event || o.Body != g.Body {
			return "a trigger has the wrong definition"
		}
	}
	for _, x := range cur.Triggers {
		ok := false
		for _, g := range des.Triggers {
			if g.Name == x.Name {
				ok = true
			}
		}
		if !ok {
			return "an obsolete trigger remains"
		}
	}
	return ""
}

// DiffTable compares one table.
func DiffTable(d Dialect, u, t *Table) string {
	for i, c := range t.Cols {
		o := u.Col(c.Name)
		if o == nil {
			return "a desired column is missing"
		}
		if s := DiffCol(d, o, c); s != "" {
			return s
		}
		if d == My && len(u.Cols) == len(t.Cols) && u.Cols[i].Name != c.Name {
			return "the columns are in the wrong order"
		}
	}
	for _, c := range u.Cols {
		if t.Col(c.Name) == nil {
			return "an obsolete column remains"
		}
	}
	p, q := u.PK(), t.PK()
	if (p == nil) != (q == nil) {
		if p == nil {
			return "the primary key is missing"
		}
		return "an obsolete primary key remains"
	}
	if p != nil {
		if s := diffIdx(d, p, q); s != "" {
			return "primary key: " + s
		}
	}
	for _, x := range t.Idxs {
		if x.Primary {
			continue
		}
		o := u.Idx(x.Name)
		if o == nil {
			if x.auto && covered(u, colNames(x), x.Unique) {
				continue
			}
			return "a desired index is missing"
		}
		if s := diffIdx(d, o, x); s != "" {
			return "index: " + s
		}
	}
	for _, x := range u.Idxs {
		if x.Primary || t.Idx(x.Name) != nil {
			continue
		}
		if x.auto && !x.Unique {
			continue
		}
		if x.auto && x.Unique && covered(t, colNames(x), true) {
			continue
		}
		return "an obsolete index remains"
	}
	for _, f := range t.FKs {
		o := u.FK(f.Name)
		if o == nil {
			return "a desired foreign key is missing"
		}
		if !same(o.Cols, f.Cols) {
			return "foreign key: wrong columns"
		}
		if o.RefTable != f.RefTable || !same(o.RefCols, f.RefCols) {
			return "foreign key: wrong reference"
		}
		if o.OnDelete != f.OnDelete || o.OnUpdate != f.OnUpdate {
			return "foreign key: wrong referential action"
		}
		if o.NFR != f.NFR {
			return "foreign key: wrong replication option"
		}
	}
	for _, f := range u.FKs {
		if t.FK(f.Name) == nil {
			return "an obsolete foreign key remains"
		}
	}
	for _, y := range t.Policies {
		var o *Policy
		for _, x := range u.Policies {
			if x.Name == y.Name {
				o = x
			}
		}
		if o == nil {
			return "a desired policy is missing"
		}
		if o.Permissive != y.Permissive || o.Cmd != y.Cmd {
			return "policy: wrong kind"
		}
		if o.hasUsing != y.hasUsing || o.Using != y.Using || o.hasCheck != y.hasCheck || o.Check != y.Check {
			return "policy: wrong expression"
		}
		if !sameSet(o.Roles, y.Roles) {
			return "policy: wrong roles"
		}
	}
	if len(u.Policies) != len(t.Policies) {
		return "an obsolete policy remains"
	}
	return ""
}

func colNames(x *Idx) []string {
	var l []string
	for _, c := range x.Cols {
		l = append(l, c.Name)
	}
	return l
}

func same(a, b []string) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}
func sameSet(a, b []string) bool {
	if len(a) != len(b) {
		return false
	}
	for _, x := range a {
		ok := false
		for _, y := range b {
			if x == y {
				ok = true
			}
		}
		if !ok {
			return false
		}
	}
	return true
}

func intType(s string) bool {
	switch s {
	case "int", "tinyint", "smallint", "mediumint", "bigint":
		return true
	}
	return false
}

// number is a default without the quotes of show create table.
func number(s string) string {
	s = strings.ReplaceAll(s, " ", "")
	if len(s) > 2 && s[0] == '\'' {
		return s[1 : len(s)-1]
	}
	return s
}

// DiffCol compares one column.
func DiffCol(d Dialect, o, c *Col) string {
	if o.baseType() != c.baseType() {
		return "column: wrong type"
	}
	if !(d == My && intType(c.Type) && (!c.explicitLen || !o.explicitLen)) && (o.Len != c.Len || o.Scale != c.Scale) {
		return "column: wrong length"
	}
	if o.Unsigned != c.Unsigned {
		return "column: wrong signedness"
	}
	if o.Array != c.Array {
		return "column: array or not"
	}
	if o.TZ != c.TZ {
		return "column: time zone or not"
	}
	if o.Enum != c.Enum {
		return "column: wrong enum values"
	}
	if o.NotNull != c.NotNull {
		return "column: wrong nullability"
	}
	if d == My && (intType(c.Type) || c.Type == "decimal" || c.Type == "float" || c.Type == "double" || c.Type == "boolean") {
		if number(o.Def) != number(c.Def) || o.serl != c.serl {
			return "column: wrong default"
		}
	} else if o.Def != c.Def || o.serl != c.serl {
		return "column: wrong default"
	}
	if c.DefName != "" && o.DefName != c.DefName && !strings.HasPrefix(c.DefName, "DF__") {
		return "column: wrong default constraint name"
	}
	if o.AutoInc != c.AutoInc {
		return "column: AUTO_INCREMENT or not"
	}
	if o.OnUpdate != c.OnUpdate {
		return "column: wrong ON UPDATE"
	}
	if c.Charset != "" && o.Charset != c.Charset {
		return "column: wrong character set"
	}
	if c.Collate != "" && o.Collate != c.Collate {
		return "column: wrong collation"
	}
	if (o.Check == nil) != (c.Check == nil) {
		return "column: CHECK present or not"
	}
	if c.Check != nil && (o.Check.Expr != c.Check.Expr || o.Check.NoInherit != c.Check.NoInherit || o.Check.NFR != c.Check.NFR) {
		return "column: wrong CHECK"
	}
	if o.Identity != c.Identity || o.IdentNFR != c.IdentNFR {
		return "column: wrong identity"
	}
	if o.Seq != c.Seq {
		return "column: wrong numbers of an identity column"
	}
	return ""
}

func (c *Col) baseType() string {
	switch c.Type {
	case "serial":
		return "int"
	case "bigserial":
		return "bigint"
	case "smallserial":
		return "smallint"
	}
	return c.Type
}

func diffIdx(d Dialect, o, x *Idx) string {
	if len(o.Cols) != len(x.Cols) {
		return "wrong columns"
	}
	for i := range x.Cols {
		if o.Cols[i].Name != x.Cols[i].Name {
			return "wrong columns"
		}
		if o.Cols[i].Len != x.Cols[i].Len {
			return "wrong prefix length"
		}
		if o.Cols[i].Desc != x.Cols[i].Desc {
			return "wrong direction"
		}
	}
	if o.Unique != x.Unique || o.Kind != x.Kind {
		return "wrong kind"
	}
	if o.Where != x.Where {
		return "wrong condition"
	}
	if !same(o.Include, x.Include) {
		return "wrong included columns"
	}
	if d == Ms && !x.noClust && o.Clust != x.Clust {
		return "wrong clustering"
	}
	if d == My && (len(o.Opts) != len(x.Opts) || o.Method != x.Method) {
		return "wrong option"
	}
	for _, v := range x.Opts {
		i := strings.Index(v, " = ")
		if o.opt(v[:i], msOptDef[v[:i]]) != v[i+3:] {
			return "wrong option"
		}
	}
	return ""
}

var msOptDef = map[string]string{"pad_index": "off", "fillfactor": "0", "ignore_dup_key": "off", "statistics_norecompute": "off",
	"statistics_incremental": "off", "allow_row_locks": "on", "allow_page_locks": "on"}
