// Package ddl decides the properties of the planner on schema texts.
package ddl

import (
	"strings"

	"github.com/k0kubun/sqldef/schema"
	"github.com/k0kubun/sqldef/zverif/kit"
	"github.com/k0kubun/sqldef/zverif/sym"
)

var gmodes = []schema.GeneratorMode{schema.GeneratorModeMysql, schema.GeneratorModePostgres, schema.GeneratorModeSQLite3, schema.GeneratorModeMssql}
var modeNames = []string{"mysql", "postgres", "sqlite3", "mssql"}

// tmpl is a pair of schemas. A name is written @x, a string value $x, with x one
// letter; @t, @u and @w are names of tables and views.
type tmpl struct {
	m        int
	cur, des string
}

var tmpls = []tmpl{
	// MySQL
	{0, "create table @t (@a int)", "create table @t (@a int, @b varchar(9) default $v not null)"},
	{0, "create table @t (@a int default 1)", "create table @t (@a varchar(8) default $v)"},
	{0, "create table @t (@a varchar(8) default $w)", "create table @t (@a varchar(8) default $v)"},
	{0, "create table @t (@a int)", "create table @t (@a enum($v, $w))"},
	{0, "create table @t (@a int)", "create table @t (@a int, @b set($v, $w))"},
	{0, "create table @t (@a int)", "create table @t (@a int, key @k (@a))"},
	{0, "create table @t (@a int)", "create table @t (@a int, unique key @k (@a) comment $v)"},
	{0, "create table @t (@a int, @b int, key @k (@a))", "create table @t (@a int, @b int, key @k (@a, @b desc))"},
	{0, "create table @t (@a int, @b int, primary key (@a))", "create table @t (@a int, @b int, primary key (@b))"},
	{0, "create table @t (@a int auto_increment, primary key (@a))", "create table @t (@a bigint auto_increment, primary key (@a))"},
	{0, "create table @u (@b int, primary key (@b)); create table @t (@a int)", "create table @u (@b int, primary key (@b)); create table @t (@a int, constraint @f foreign key (@a) references @u (@b))"},
	{0, "create table @u (@b int, primary key (@b)); create table @t (@a int, constraint @f foreign key (@a) references @u (@b))", "create table @u (@b int, primary key (@b)); create table @t (@a int, constraint @f foreign key @i (@a) references @u (@b) on delete cascade)"},
	{0, "create view @w as select 1 from @u", "create view @w as select @a, @u.@b as @c from @u where @a = $v"},
	{0, "create table @t (@a int)", "create table @t (@a int); create trigger @g before insert on @t for each row delete from @u where @a = $v"},
	{0, "create table @t (@a int); create trigger @g before insert on @t for each row delete from @u where @a = $w", "create table @t (@a int); create trigger @g after insert on @t for each row insert into @u (@a) values ($v)"},
	{0, "create table @t (@a int, @c int)", "create table @t (@a int, @b int, @c int)"},
	{0, "create table @t (@a int)", "create table @t (@a int); create unique index @k on @t (@a)"},
	{0, "create table @t (@a int)", "create table @t (@a int); alter table @t add index @k (@a)"},
	{0, "create table @t (@a int)", "create table @t (@a int); create table @u (@b int default 1, @c varchar(9) default $v)"},
	{0, "create table @t (@a int)", "create table @t (@a int unique)"},
	{0, "create table @t (@a int, @b int)", "create table @t (@b bigint, @a int)"},
	{0, "create table @t (@a int, primary key (@a))", "create table @t (@a int auto_increment, key @k (@a))"},
	{0, "create table @t (@a varchar(8))", "create table @t (@a varchar(8) character set latin1 collate latin1_bin, @b datetime(3) on update current_timestamp(3), @c bigint unsigned)"},
	{0, "create table @t (@a varchar(8), @b varchar(8))", "create table @t (@a varchar(8), @b varchar(8), key @k (@a(3), @b(4)))"},
	{0, "create table @u (@a int, @b int, primary key (@a, @b)); create table @t (@c int, @d int)", "create table @u (@a int, @b int, primary key (@a, @b)); create table @t (@c int, @d int, key @k (@c, @d), constraint @f foreign key (@c, @d) references @u (@a, @b) on update set null)"},
	{0, "create table @s.@t (@a int, key @k (@a))", "create table @s.@t (@a bigint, @b int, primary key (@b))"},
	{0, "create table @t (@a int)", "create table @t (@a int, fulltext key @k (@a) with parser ngram)"},
	// PostgreSQL
	{1, "create table @t (@a int)", "create table @t (@a int, @b varchar(9) default $v not null)"},
	{1, "create table @t (@a int default 1)", "create table @t (@a varchar(8) default $v)"},
	{1, "create table @s.@t (@a varchar(8) default $w)", "create table @s.@t (@a text default $v not null)"},
	{1, "create table @t (@a int)", "create table @t (@a int); create unique index @k on @t (@a)"},
	{1, "create table @t (@a int); create index @k on @t (@a)", "create table @t (@a int); create index @k on @t (@a desc) where @a = $v"},
	{1, "create table @t (@a int, @b int, primary key (@a))", "create table @t (@a int, @b int, primary key (@b))"},
	{1, "create table @u (@b int, primary key (@b)); create table @t (@a int)", "create table @u (@b int, primary key (@b)); create table @t (@a int); alter table only @t add constraint @f foreign key (@a) references @u (@b)"},
	{1, "create table @u (@b int, primary key (@b)); create table @t (@a int, constraint @f foreign key (@a) references @u (@b))", "create table @u (@b int, primary key (@b)); create table @t (@a int, constraint @f foreign key (@a) references @u (@b) on delete cascade)"},
	{1, "create table @t (@a int)", "create table @t (@a int); create policy @p on @t for all to public using (@a = $v)"},
	{1, "create table @t (@a int)", "create table @t (@a int); create policy @p on @t for all to @r, @q using (@a = $v)"},
	{1, "create table @t (@a int); create policy @p on @t for all to public using (@a = $w)", "create table @t (@a int); create policy @p on @t for all to public using (@a = $v) with check (@a = $w)"},
	{1, "create view @w as select 1 from @u", "create view @w as select @a, @u.@b as @c from @u where @a = $v"},
	{1, "create table @t (@a int)", "create table @t (@a int check (@a > $v))"},
	{1, "create table @t (@a int check (@a > $w))", "create table @t (@a int check (@a > $v))"},
	{1, "create table @t (@a int)", "create table @t (@a int, @b int check (@b in ($v, $w)))"},
	{1, "create table @t (@a int)", "create table @t (@a int generated always as identity)"},
	{1, "create table @t (@a int not null)", "create table @t (@a int)"},
	{1, "create table @t (@a int)", "create table @t (@a int, @b int unique)"},
	{1, "create table @t (@a int not null, @b int, primary key (@a))", "create table @t (@a int, @b int not null)"},
	{1, "create table @t (@a int generated always as identity)", "create table @t (@a int generated by default as identity)"},
	{1, "create table @t (@a int)", "create table @t (@a int, @b int generated by default as identity (start with 3 increment by 2 minvalue 1 maxvalue 99 cache 4 cycle))"},
	{1, "create table @s.@t (@a int, @b int default 1)", "create table @s.@t (@a bigint not null check (@a > $v), @b int)"},
	{1, "create table @t (@a timestamp)", "create table @t (@a timestamp with time zone, @b time with time zone)"},
	{1, "create table @s.@t (@a int)", "create table @s.@t (@a int); create index @k on @s.@t (@a); create policy @p on @s.@t for all to public using (@a = $v)"},
	{1, "create table @s.@t (@a int, primary key (@a))", "create table @s.@t (@b int, primary key (@b))"},
	{1, "create view @w as select 1 from @u", "create view @s.@w as select @a from @u"},
	{1, "create table @t (@a int)", "create table @t (@a int); create table @u (@b int, @c varchar(9) default $v, constraint @f foreign key (@b) references @t (@a))"},
	{1, "create table @u (@a int, @b int, primary key (@a, @b)); create table @t (@c int, @d int)", "create table @u (@a int, @b int, primary key (@a, @b)); create table @t (@c int, @d int, constraint @f foreign key (@c, @d) references @u (@a, @b) on update set null)"},
	// SQLite
	{2, "create table @t (@a int)", "create table @t (@a int, @b varchar(9) default $v not null)"},
	{2, "create table @t (@a int)", "create table @t (@a int); create table @u (@b varchar(9) default $v)"},
	{2, "create table @t (@a int)", "create table @t (@a int); create view @w as select @a from @t where @a = $v"},
	{2, "create view @w as select 1 from @u", "create view @w as select @a, @u.@b as @c from @u where @a = $v"},
	{2, "create table @t (@a int, @b int); create table @u (@c int)", "create table @t (@a int)"},
	{2, "create table @t (@a int)", "create table @t (@a int); create view @w as select @t.@a from @t where @t.@a like $v"},
	// SQL Server
	{3, "create table @t (@a int)", "create table @t (@a int, @b varchar(9) default $v not null)"},
	{3, "create table @t (@a int constraint @d default 1)", "create table @t (@a int constraint @e default 2)"},
	{3, "create table @t (@a int)", "create table @t (@a int, @b varchar(8) constraint @d default $v)"},
	{3, "create table @t (@a int)", "create table @t (@a int, index @k (@a))"},
	{3, "create table @t (@a int, @b int)", "create table @t (@a int, @b int); create unique nonclustered index @k on @t (@a desc) include (@b) with (fillfactor = 9) on @p (@a)"},
	{3, "create table @t (@a int, @b int, constraint @k primary key (@a))", "create table @t (@a int, @b int, constraint @k primary key (@b))"},
	{3, "create table @u (@b int, primary key (@b)); create table @t (@a int)", "create table @u (@b int, primary key (@b)); create table @t (@a int, constraint @f foreign key (@a) references @u (@b))"},
	{3, "create table @u (@b int, primary key (@b)); create table @t (@a int, constraint @f foreign key (@a) references @u (@b))", "create table @u (@b int, primary key (@b)); create table @t (@a int, constraint @f foreign key (@a) references @u (@b) on delete cascade)"},
	{3, "create view @w as select 1 from @u", "create view @w as select @a, @u.@b as @c from @u where @a = $v"},
	{3, "create table @t (@a int)", "create table @t (@a int constraint @c check (@a > $v))"},
	{3, "create table @t (@a int constraint @c check (@a > $w))", "create table @t (@a int constraint @d check (@a > $v))"},
	{3, "create table @s.@t (@a int)", "create table @s.@t (@a int, @b int check (@b > $v))"},
	{3, "create table @t (@a int)", "create table @t (@a int); create trigger @g on @t after insert as insert into @u (@a) values ($v)"},
	{3, "create table @t (@a int, @b int)", "create table @t (@a int identity(1,2), @b int)"},
	{3, "create table @t (@a int)", "create table @t (@a int, @b int constraint @c check not for replication (@b > $v))"},
	{3, "create table @s.@t (@a int)", "create table @s.@t (@a int check not for replication (@a > $v))"},
	{3, "create table @t (@a int, @b int)", "create table @t (@a int, @b int, constraint @k primary key nonclustered (@a, @b) with (fillfactor = 9) on @p (@a))"},
	{3, "create table @t (@a int, @b int); create index @k on @t (@a)", "create table @t (@a int, @b int); create unique index @k on @t (@b) include (@a)"},
	{3, "create table @u (@b int, primary key (@b)); create table @t (@a int, @c int)", "create table @u (@b int, primary key (@b)); create table @t (@a int, @c int, constraint @f foreign key (@a) references @u (@b) on delete cascade not for replication)"},
	{3, "create table @s.@t (@a int default 1, @b int)", "create table @s.@t (@a int, @b int default 2); create index @k on @s.@t (@a)"},
	{3, "create table @t (@a int, @b int constraint @d default 1)", "create table @t (@a int, @b int)"},
	{3, "create table @t (@a int); create trigger @g on @t after insert as insert into @u (@a) values ($w)", "create table @t (@a int); create trigger @g on @t after insert as insert into @u (@a) values ($v)"},
	{3, "create table @t (@a int)", "create table @t (@a int); create table @u (@b int identity(3,4) not for replication, @c varchar(9) default $v, constraint @k primary key (@b))"},
}

var closers = [][]byte{{'`'}, {'"'}, {'"', '`'}, {']', '"'}}

func quoteName(m int, close byte, v []byte) string {
	open := close
	if close == ']' {
		open = '['
	}
	b := []byte{open}
	for _, c := range v {
		b = append(b, c)
		if c == close {
			b = append(b, c)
		}
	}
	return string(append(b, close))
}

func quoteValue(m int, v []byte) string {
	b := []byte{'\''}
	for _, c := range v {
		b = append(b, c)
		if c == '\'' || (m == 0 && c == '\\') {
			b = append(b, c)
		}
	}
	return string(append(b, '\''))
}

// letters are the markers of a template, each with its kind.
func letters(s string) []string {
	var out []string
	for i := 0; i+1 < len(s); i++ {
		if s[i] == '@' || s[i] == '$' {
			x := s[i : i+2]
			seen := false
			for _, y := range out {
				seen = seen || x == y
			}
			if !seen {
				out = append(out, x)
			}
		}
	}
	return out
}

func plainText(x string) string {
	if x[0] == '@' {
		return "n" + x[1:] + "n"
	}
	return "v" + x[1:] + "v"
}

func fill(m int, close byte, s, marker string, v []byte) string {
	out := ""
	for i := 0; i < len(s); i++ {
		if s[i] != '@' && s[i] != '$' {
			out += s[i : i+1]
			continue
		}
		x := s[i : i+2]
		i++
		b := []byte(plainText(x))
		if x == marker {
			b = v
		}
		if x[0] == '@' {
			out += quoteName(m, close, b)
		} else {
			out += quoteValue(m, b)
		}
	}
	return out
}

func lex(m int, s string) (toks []kit.Tok) {
	code, msg := sym.Catch(func() { toks = kit.Lex(kit.Dialect(m), s) })
	sym.Assert(code == 0, "a statement cannot be read: "+msg)
	return
}

// upper reports an upper-case letter.
func upper(v []byte) bool {
	r := false
	for _, c := range v {
		r = sym.Or(r, sym.And(c >= 'A', c <= 'Z'))
	}
	return r
}

// HC15Names: whatever the bytes of a name or value are, the plan is the plan for a
// plain name or value with that one in its place.
func HC15Names() { c15names(1) }

// HC15Names2: longer ones.
func HC15Names2() { c15names(2) }

func c15names(n int) {
	i := sym.Choice(len(tmpls))
	p := tmpls[i]
	sym.Tag(modeNames[p.m])
	cur, des := p.cur, p.des
	if sym.Choice(2) == 1 {
		cur, des = des, cur
	}
	sym.Tag(cur)
	sym.Tag(des)
	ls := letters(cur + " " + des)
	x := ls[sym.Choice(len(ls))]
	sym.Tag(x)
	closer := closers[p.m][sym.Choice(len(closers[p.m]))]
	v := []byte("x")
	for j := 0; j < n; j++ {
		c := sym.Byte()
		sym.Assume(c != 0)
		v = append(v, c)
	}
	if x[0] == '@' && p.m%2 == 1 {
		// A dot separates the schema from the name.
		for _, c := range v {
			sym.Assume(c != '.')
		}
		// The case of a name in an expression is not kept.
		sym.Assume(sym.Not(upper(v)))
	}
	if x == "@w" {
		// The name of a view is read in lower case, see HC15Lossy.
		sym.Assume(sym.Not(upper(v)))
		for _, c := range v {
			sym.Assume(c < 0x80)
		}
	}
	samePlan(p, cur, des, x, v, closer)
}

// HC15Lossy: names that are known not to survive.
func HC15Lossy() {
	switch sym.Choice(3) {
	case 0:
		m := sym.Choice(4)
		sym.Tag("a view with an upper-case name")
		p := tmpl{m, "create view @w as select 1 from @u", "create view @w as select 2 from @u"}
		samePlan(p, p.cur, p.des, "@w", []byte("N"), closers[m][0])
	case 1:
		m := 1 + 2*sym.Choice(2)
		sym.Tag("a table with a dot in its name")
		p := tmpl{m, "create table @t (@a int)", "create table @t (@a int, @b int)"}
		samePlan(p, p.cur, p.des, "@t", []byte("n.m"), closers[m][0])
	case 2:
		sym.Tag("an upper-case name in an expression")
		p := tmpl{1, "create table @t (@a int)", "create table @t (@a int check (@a > 1))"}
		samePlan(p, p.cur, p.des, "@a", []byte("N"), closers[1][0])
	}
}

func samePlan(p tmpl, cur, des, x string, v []byte, closer byte) {
	base, err := schema.GenerateIdempotentDDLs(gmodes[p.m], fill(p.m, closer, des, "", nil), fill(p.m, closer, cur, "", nil))
	if err != nil { // what is only supported in desired schemas
		sym.Assume(strings.HasPrefix(err.Error(), "found syntax error"))
		sym.Fail("a template cannot be parsed")
	}
	got, err := schema.GenerateIdempotentDDLs(gmodes[p.m], fill(p.m, closer, des, x, v), fill(p.m, closer, cur, x, v))
	sym.Assert(err == nil, "a schema is rejected for a name or value in it")
	sym.Dump(strings.Join(got, ";\n"))
	sym.Assert(len(got) == len(base), "a name or value changes the plan")
	for j := range base {
		a, b := lex(p.m, base[j]), lex(p.m, got[j])
		sym.Assert(len(a) == len(b), "a name or value changes a statement")
		for k := range a {
			same(p.m, a[k], b[k], plainText(x), string(v))
		}
	}
	sym.Cover("end")
}

// same: token b is token a with the plain text replaced.
func same(m int, a, b kit.Tok, plain, v string) {
	at, bt := a.S, b.S
	if a.K == 'w' || a.K == 'q' {
		sym.Assert(b.K == 'w' || b.K == 'q', "a name or value changes a statement")
	} else {
		sym.Assert(a.K == b.K, "a name or value changes a statement")
	}
	if a.K == 'p' || a.K == 'n' || !strings.Contains(at, plain) {
		sym.Assert(at == bt, "a name or value changes a statement")
		return
	}
	if m == 1 && b.K == 'w' { // read in lower case
		bt = b.L
	}
	sym.Assert(bt == strings.ReplaceAll(at, plain, v), "a name or value becomes another")
}
