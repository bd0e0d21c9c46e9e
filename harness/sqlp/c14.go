// Package sqlp decides the properties of the SQL parser and printer on sentences of
// a grammar: every derivation with a bounded number of choices other than the first
// alternative, with symbolic names, numbers and strings.
package sqlp

import (
	"strings"

	"github.com/k0kubun/sqldef/sqlparser"
	"github.com/k0kubun/sqldef/zverif/kit"
	"github.com/k0kubun/sqldef/zverif/sym"
)

// An alternative is a text, or "text => text as printed"; <x> is derived from x (a
// trailing digit tells two of them apart), $x is a name, #x a number, %x a string.
var grammar = map[string][]string{
	"query": {"<select>", "<select1> union <select2>", "<select1> union all <select2>", "<select1> union distinct <select2>", "(<select1>) union (<select2>) order by <o> asc limit #n", "<select1> union <select2> union all <select3>", "<select1> union (<select2> union <select3>)",
		"select next value from $t => select next 1 values from $t", "select next #n values from $t"},
	"select": {
		"select <comment><distinct><exprs> from <tables><where><group><having><order><limit><lock>",
		"select <comment><cache><distinct>straight_join <exprs> from <tables>",
		"select <e> => select <e> from dual"},
	"comment":  {"", "/* x */ ", "/* x */ /* y */ "},
	"cache":    {"", "sql_no_cache ", "sql_cache "},
	"distinct": {"", "distinct "},
	"exprs":    {"<item>", "*", "$t.*", "$u.$t.*", "<item1>, <item2>", "<item1>, *, <item2>"},
	"item":     {"<e>", "<e> as $a", "<e> $a => <e> as $a", "<e> as 'x y' => <e> as `x y`"},
	"tables":   {"<table>", "<table1>, <table2>", "<table1>, <join>", "<join>"},
	"table":    {"$t", "$u.$t", "$t as $w", "$t $w => $t as $w", "$t<hints>", "$t as $w<hints>", "$t partition ($p, $q)", "$t partition ($p) as $w<hints>", "(<select>) as $w", "(<select>) $w => (<select>) as $w", "(<tables>)", "`select`", "$u.`from`"},
	"hints":    {" use index ($i)", " ignore index ($i, $j)", " force index ($i)"},
	"join": {"<table1> join <table2><on>", "<table1> inner join <table2><on> => <table1> join <table2><on>", "<table1> cross join <table2> => <table1> join <table2>", "<table1> straight_join <table2><jon>",
		"<table1> left join <table2> on <c>", "<table1> left outer join <table2> on <c> => <table1> left join <table2> on <c>", "<table1> right join <table2> using ($a, $b)", "<table1> right outer join <table2> on <c> => <table1> right join <table2> on <c>",
		"<table1> natural join <table2>", "<table1> natural left join <table2>", "<table1> natural right outer join <table2> => <table1> natural right join <table2>",
		"<join1> join <table2><on>", "<join1> left join <table2> on <c>", "<table1> left join <table2> join <table3> on <c1> on <c2>", "<table1> left join <table2> right join <table3> on <c1> on <c2>", "<table1> left join (<join2>) on <c>", "<table1> join (<join2>)<on>", "<join1> natural join <table2>", "<join1> straight_join <table2><jon>"},
	"on":     {"", " on <c>", " using ($a)", " using ($a, $b)"},
	"jon":    {"", " on <c>"},
	"where":  {"", " where <c>"},
	"group":  {"", " group by <e>", " group by <e1>, <e2>"},
	"having": {"", " having <c>"},
	"order":  {"", " order by <o> asc", " order by <o> => order by <o> asc", " order by <o> desc", " order by <o1> asc, <o2> desc", " order by null"},
	"limit":  {"", " limit #n", " limit #n, #m", " limit #n offset #m => limit #m, #n", " limit :v1"},
	"lock":   {"", " for update", " lock in share mode"},
	"insert": {"<ins> <comment><ignore>into <into> values <rows><dup>", "<ins> <comment><ignore><into> values <rows> => <ins> <comment><ignore>into <into> values <rows>",
		"<ins> into <into> <select><dup>", "<ins> into <into> (<select>) => <ins> into <into> <select>", "<ins> <comment><ignore>into $t set $a = <e1>, $b = <e2><dup> => <ins> <comment><ignore>into $t($a, $b) values (<e1>, <e2>)<dup>"},
	"ins":    {"insert", "replace"},
	"ignore": {"", "ignore "},
	"into":   {"$t($a, $b)", "$t", "$u.$t($a)", "$t partition ($p, $q)($a)", "$t($t.$a, $t.$b) => $t($a, $b)"},
	"rows":   {"(<e1>, <e2>)", "(<e1>, <e2>), (<e3>, <e4>)", "()", "(default, <e>)", "(default($a), null)"},
	"dup":    {"", " on duplicate key update $a = <e>", " on duplicate key update $a = values($a), $b = <e>"},
	"update": {"update <comment><tables> set <sets><where><order><limit>"},
	"sets":   {"$a = <e>", "$t.$a = <e1>, $b = <e2>", "$a = default", "$u.$t.$a = <c>"},
	"delete": {"delete <comment>from $t<where><order><limit>", "delete from $t partition ($p)<where>", "delete $t from <tables><where>", "delete $t, $u.$w from <tables><where>", "delete from $t using <tables><where> => delete $t from <tables><where>", "delete $t using <tables> => delete $t from <tables>"},
	"set": {"set <comment><scope>$a = <e>", "set $a = <e1>, $b = <e2>", "set $a = on => set $a = 'on'", "set $a = off => set $a = 'off'", "set names %s", "set names $c => set names '$c'", "set names default", "set character set %s => set charset %s", "set charset %s", "set @@session.$a = <e>",
		"set <scope>transaction isolation level repeatable read => set <scope>tx_isolation = 'repeatable read'", "set <scope>transaction isolation level read committed => set <scope>tx_isolation = 'read committed'", "set <scope>transaction isolation level read uncommitted => set <scope>tx_isolation = 'read uncommitted'", "set <scope>transaction isolation level serializable => set <scope>tx_isolation = 'serializable'",
		"set <scope>transaction read only => set <scope>tx_read_only = 1", "set <scope>transaction read write => set <scope>tx_read_only = 0"},
	"create": {"create table $t (\n\t<cols>\n)<topts>", "create table if not exists $u.$t (<cols>)<topts> => create table $u.$t (\n\t<cols>\n)<topts>", "create view $v as <query>", "create view $v as (<select1>) union <select2>"},
	"cols":   {"<col>", "<col1>,\n\t<col2>", "<col>,\n\t<index>", "<col>,\n\t<index1>,\n\t<index2>", "<col1>,<index>,<col2> => <col1>,\n\t<col2>,\n\t<index>"},
	"col": {"$a <type><null><def><auto><remark><key>", "$a varchar(#n)<charset><null><def><remark><key>", "$a text<charset><null>", "$a <time><null> default current_timestamp<onup>", "$a int<key><null> => $a int<null><key>", "$a int<remark><def><null> => $a int<null><def><remark>", "$a int default %s null => $a int default %s",
		"`key` int", "`a b` int", "$a int unsigned zerofill not null default #n auto_increment comment %s primary key"},
	"type":    {"int", "int(#n)", "tinyint", "smallint(#n) unsigned", "mediumint", "integer", "bigint unsigned", "bigint(#n) zerofill", "bit(#n)", "bool", "boolean", "real(#n,#m)", "double", "double precision", "float(#n,#m)", "decimal(#n,#m)", "decimal(#n)", "numeric(#n, #m) => numeric(#n,#m)", "date", "<time>", "year", "char(#n)", "varchar(#n)", "binary(#n)", "varbinary(#n)", "tinytext", "mediumtext", "longtext", "blob", "tinyblob", "mediumblob", "longblob", "json", "enum(%s, 'z')", "set('y', %s)", "geometry", "point", "linestring", "polygon", "multipoint", "geometrycollection"},
	"time":    {"timestamp", "timestamp(#n)", "datetime", "datetime(#n)", "time(#n)"},
	"null":    {"", " not null"},
	"def":     {"", " default #n", " default -#n", " default %s", " default #n.#m", " default null", " default b'01' => default B'01'", " default true", " default (#n) => default #n"},
	"onup":    {"", " on update current_timestamp", " on update current_timestamp() => on update current_timestamp"},
	"auto":    {"", " auto_increment"},
	"remark":  {"", " comment %s"},
	"key":     {"", " primary key", " unique", " unique key", " key"},
	"charset": {"", " character set utf8", " collate utf8_bin", " character set utf8 collate utf8_bin"},
	"index":   {"key $i ($a)<iopt>", "index $i ($a, $b)<iopt>", "unique key $i ($a(#n))<iopt>", "unique index $i ($a)<iopt>", "unique $i ($a)", "primary key ($a, $b)<iopt>", "fulltext key $i ($a)", "spatial index $i ($a)"},
	"iopt":    {"", " using btree", " key_block_size #n", " key_block_size=#n => key_block_size #n", " comment %s", " using hash comment %s"},
	"topts":   {"", " engine=innodb", " auto_increment=#n", " default charset=utf8", " comment=%s", " engine=innodb,\n  checksum=0"},
	"scope":   {"", "session ", "global "},
	"c": {"<e1> = <e2>", "<e>", "<c1> and <c2>", "<c1> && <c2> => <c1> and <c2>", "<c1> or <c2>", "not <c>", "<e1> != <e2>", "<e1> <> <e2> => <e1> != <e2>", "<e1> < <e2>", "<e1> <= <e2>", "<e1> > <e2>", "<e1> >= <e2>", "<e1> <=> <e2>",
		"<e> is null", "<e> is not null", "<e> is true", "<e> is not true", "<e> is false", "<e> is not false", "<e1> in (<e2>, <e3>)", "<e1> not in (<e2>)", "<e> in (<select>)", "<e> not in (<select>)", "<e> in ::list",
		"<e1> like <e2>", "<e1> not like <e2>", "<e1> like <e2> escape <e3>", "<e1> regexp <e2>", "<e1> rlike <e2> => <e1> regexp <e2>", "<e1> not regexp <e2>", "<e1> between <e2> and <e3>", "<e1> not between <e2> and <e3>", "exists (<select>)", "(<c>)", "default($a)", "default"},
	"un": {"-$a", "+$a", "~$a", "!$a", "binary $a", "_binary %s"},
	"o":  {"$a", "$t.$a", "#n", "<e1> + <e2>", "$f(<e>)", "(<select>)", "<c>"},
	"n":  {"$a", "$t.$a", "$u.$t.$a", "%s", "(<e>)", "(<c>)", "$f(<e>)", "<n> collate utf8mb4_bin", "(<select>)", "case when <c> then <e> end"},
	"e": {"$a", "$t.$a", "$u.$t.$a", "#n", "-#n", "#n.#m", "%s", "null", "true", "false", "0x4f", "x'4f' => X'4f'", "b'01' => B'01'", ":v1", "`select`", "$t.`key`", "`a``b`", "@@$a", "(<e>)", "(<c>)", "(<select>)", "<e1> + <e2>", "<e1> - $b", "<e1> * <e2>", "<e1> / <e2>", "<e1> div <e2>", "<e1> % <e2>", "<e1> mod <e2> => <e1> % <e2>",
		"<e1> & <e2>", "<e1> | <e2>", "<e1> ^ <e2>", "<e1> << <e2>", "<e1> >> <e2>", "$a -> %s", "$a ->> %s", "- $a => -$a", "+$a", "~<n>", "!<n>", "binary <n>", "~ <un>", "! <un>", "- <un>", "+ <un>", "binary <un> => binary  <un>", "_binary %s => _binary %s", "<e> collate utf8mb4_bin", "<e1> + interval <e2> day", "date_sub(<e1>, interval <e2> hour)", "(<e1>, <e2>)",
		"$f()", "$f(<e>)", "$f(<e1>, <e2>)", "$f(distinct <e>)", "$t.$f(<e>)", "count(*)", "left(<e1>, <e2>)", "if(<c>, <e1>, <e2>)", "mod(<e1>, <e2>)", "replace(<e1>, <e2>, <e3>)", "database()", "values($a)", "current_timestamp => current_timestamp()", "current_date() => current_date()", "utc_timestamp() => utc_timestamp()", "localtime => localtime()",
		"convert(<e>, char)", "convert(<e>, char(#n))", "convert(<e>, char(#n) character set utf8)", "cast(<e> as signed) => convert(<e>, signed)", "convert(<e>, decimal(#n, #m))", "convert(<e>, unsigned)", "convert(<e>, date)", "convert(<e>, json)", "convert(<e> using utf8)",
		"substr($a, <e>)", "substr($a, <e1>, <e2>)", "substring($a, <e>) => substr($a, <e>)", "substr($a from <e1> for <e2>) => substr($a, <e1>, <e2>)", "substring($t.$a from <e1> for <e2>) => substr($t.$a, <e1>, <e2>)",
		"match($a, $b) against (<e>)", "match($a) against (<e> in boolean mode)", "match($a) against (<e> in natural language mode)", "match($a) against (<e> in natural language mode with query expansion)", "match($a) against (<e> with query expansion)",
		"group_concat(<e>)", "group_concat(distinct <e1>, <e2> order by <o> desc separator %s)", "case when <c> then <e> end", "case <e1> when <e2> then <e3> else <e4> end", "case when <c1> then <e1> when <c2> then <e2> else <e3> end"},
}

type deriver struct {
	left   int // choices other than the first that remain
	names  map[byte]string
	nums   map[byte]string
	strs   map[byte]string
	places int
	tag    string

	// fresh: every place has its own number or string (only the sentence itself is
	// of use then, not the text as printed).
	fresh    bool
	few      int // so many literals are arbitrary, the others are different
	lits     []string
	choices  []int
	replay   []int // the choices of another derivation
	replayed bool
}

func newDeriver(left int) *deriver {
	return &deriver{left: left, names: map[byte]string{}, nums: map[byte]string{}, strs: map[byte]string{}}
}

func letter(c byte) bool { return c >= 'a' && c <= 'z' || c >= '0' && c <= '9' }

func (d *deriver) terminal(k, x byte) string {
	switch k {
	case '$':
		if d.names[x] == "" {
			d.names[x] = kit.Name(2)
		}
		return d.names[x]
	case '#':
		if d.fresh && x == 'f' {
			return d.literal(kit.Digits(1), "#")
		}
		if d.fresh {
			return d.literal(kit.Digits(2), "#")
		}
		if d.nums[x] == "" {
			d.nums[x] = kit.Digits(2)
		}
		return d.nums[x]
	}
	if d.fresh {
		return d.literal("", "%")
	}
	if d.strs[x] == "" {
		c := sym.Byte()
		sym.Assume(sym.And(c >= ' ', sym.And(c < 0x7f, sym.And(c != '\'', sym.And(c != '"', c != '\\')))))
		d.strs[x] = "'" + string([]byte{c}) + "'"
	}
	return d.strs[x]
}

// derive is a sentence and the text it is expected to be printed as.
func (d *deriver) derive(nt string) (in, out string) {
	alts := grammar[nt]
	i := 0
	if d.left > 0 && len(alts) > 1 {
		if d.replayed {
			i = d.replay[0]
			d.replay = d.replay[1:]
		} else {
			i = sym.Choice(len(alts))
			d.choices = append(d.choices, i)
		}
		if i > 0 {
			d.left--
			d.tag += nt + ": " + alts[i] + "; "
		}
	}
	alt := alts[i]
	if d.fresh && nt == "e" && i == 0 {
		alt = [2]string{"%s", "#n"}[len(d.lits)%2]
	}
	if d.fresh && alt == "#n.#m" {
		alt = "#f.5"
	}
	printed := alt
	if j := strings.Index(alt, " => "); j >= 0 {
		printed = alt[j+4:]
		if alt[0] == ' ' {
			printed = " " + printed
		}
		alt = alt[:j]
	}
	if d.fresh {
		for _, r := range notValues {
			alt = strings.ReplaceAll(alt, r[0], r[1])
		}
	}
	sub := map[string][2]string{}
	in = d.expand(alt, sub, 0)
	if d.fresh {
		return in, ""
	}
	return in, d.expand(printed, sub, 1)
}

func (d *deriver) expand(alt string, sub map[string][2]string, side int) string {
	s := ""
	for i := 0; i < len(alt); i++ {
		c := alt[i]
		switch {
		case c == '<' && i+1 < len(alt) && alt[i+1] >= 'a' && alt[i+1] <= 'z':
			j := i + strings.IndexByte(alt[i:], '>')
			k := alt[i+1 : j]
			x, ok := sub[k]
			if !ok {
				nt := k
				if nt[len(nt)-1] <= '9' {
					nt = nt[:len(nt)-1]
				}
				a, b := d.derive(nt)
				x = [2]string{a, b}
				sub[k] = x
			}
			s += x[side]
			i = j
		case (c == '$' || c == '#' || c == '%') && i+1 < len(alt) && letter(alt[i+1]) && (i+2 == len(alt) || !letter(alt[i+2])):
			s += d.terminal(c, alt[i+1])
			i++
		default:
			s += alt[i : i+1]
		}
	}
	return s
}

var roots = []string{"query", "insert", "update", "delete", "set", "create"}

func c14(n int) {
	d := newDeriver(n)
	in, out := d.derive(roots[sym.Choice(len(roots))])
	sym.Tag(d.tag)
	sym.Dump(in)
	s, err := sqlparser.ParseStrictDDLWithMode(in, sqlparser.ParserModeMysql)
	if err != nil {
		sym.Dump(err.Error())
		sym.Fail("a statement is rejected")
	}
	p := sqlparser.String(s)
	sym.Dump(p)
	sym.Assert(p == out, "a statement is printed as another")
	s, err = sqlparser.ParseStrictDDLWithMode(p, sqlparser.ParserModeMysql)
	sym.Assert(err == nil, "a printed statement is rejected")
	sym.Assert(sqlparser.String(s) == p, "a printed statement is printed as another")
	sym.Cover("end")
}

func HC14One()   { c14(1) }
func HC14Two()   { c14(2) }
func HC14Three() { c14(3) }

// words of the grammar that are names, which keep their letter case
const named = " count date_sub utf8 utf8_bin utf8mb4_bin hour day btree hash innodb checksum engine auto_increment charset comment x y z list v1 "

// spell writes a sentence with upper-case keywords or other blanks; names, strings
// and symbolic parts are as they were.
func spell(s string, upper, blanks bool) string {
	var out []byte
	var q byte
	for i := 0; i < len(s); i++ {
		c := s[i]
		if q != 0 {
			if c == q {
				q = 0
			}
			out = append(out, c)
			continue
		}
		switch {
		case c == '/' && i+1 < len(s) && s[i+1] == '*':
			j := i + strings.Index(s[i:], "*/")
			out = append(out, s[i:j+2]...)
			i = j + 1
			continue
		case c == '\'' || c == '`':
			q = c
		case c == ' ' && blanks:
			out = append(out, '\n', '\t', '\r')
		case (c == ',' || c == '(' || c == ')') && blanks:
			// A name followed by a blank and a parenthesis is still a call.
			out = append(out, c, ' ')
			continue
		case upper && i > 0 && letter(c):
			j := i
			for j < len(s) && (letter(s[j]) || s[j] == '_') {
				j++
			}
			w := s[i:j]
			if len(w) > 2 && w[0] > '9' && s[i-1] != '@' && !strings.Contains(named, " "+w+" ") {
				w = strings.ToUpper(w)
			}
			out = append(out, w...)
			i = j - 1
			continue
		}
		out = append(out, c)
	}
	return string(out)
}

// HC14Spelling: keywords in upper case and other blanks mean the same.
func HC14Spelling() {
	d := newDeriver(1)
	root := roots[sym.Choice(len(roots))]
	in, out := d.derive(root)
	up := sym.Choice(2) == 0
	sym.Tag(d.tag)
	in = spell(in, up, !up)
	sym.Dump(in)
	s, err := sqlparser.ParseStrictDDLWithMode(in, sqlparser.ParserModeMysql)
	if err != nil {
		sym.Dump(err.Error())
		sym.Fail("a statement is rejected")
	}
	p := sqlparser.String(s)
	sym.Dump(p)
	sym.Assert(p == out, "another spelling is printed as another statement")
	sym.Cover("end")
}
