package sqlp

import (
	"github.com/k0kubun/sqldef/sqlparser"
	"github.com/k0kubun/sqldef/zverif/kit"
	"github.com/k0kubun/sqldef/zverif/sym"
)

// Binding powers as documented by MySQL.
const (
	pOr = iota + 1
	pAnd
	pNot
	pCmp
	pBitOr
	pBitAnd
	pShift
	pAdd
	pMul
	pXor
	pNeg
	pBang
	pCollate
)

func level(op string) int {
	switch op {
	case "or", "||":
		return pOr
	case "and", "&&":
		return pAnd
	case "|":
		return pBitOr
	case "&":
		return pBitAnd
	case "<<", ">>":
		return pShift
	case "+", "-":
		return pAdd
	case "*", "/", "%", "div", "mod":
		return pMul
	case "^":
		return pXor
	case "collate x", "collate y":
		return pCollate
	}
	return pCmp
}

// climber is a reference parser; the shape of an expression is written in prefix form.
type climber struct {
	t []string // operands and operators in turn, prefix operators before an operand
	i int
	// refused: the sentence chains comparisons or has NOT or a condition inside a
	// value, which the grammar does not allow without parentheses.
	refused bool
}

func (c *climber) peek() string {
	if c.i < len(c.t) {
		return c.t[c.i]
	}
	return ""
}

func (c *climber) prefix() (string, int) {
	op := c.t[c.i]
	c.i++
	switch op {
	case "not":
		x, _ := c.parse(pNot)
		return "(not " + x + ")", pNot
	case "-", "+", "~", "binary":
		x, l := c.parse(pNeg)
		if l < pNeg {
			c.refused = true
		}
		return "(u" + op + " " + x + ")", pNeg
	case "!":
		x, l := c.parse(pNeg)
		if l < pNeg {
			c.refused = true
		}
		return "(u! " + x + ")", pNeg
	}
	return op, 99
}

func canonicalOp(op string) string {
	switch op {
	case "mod":
		return "%"
	case "<>":
		return "!="
	case "&&":
		return "and"
	case "||":
		return "or"
	case "rlike":
		return "regexp"
	}
	return op
}

// parse reads an expression of operators that bind at least as strongly as min and
// returns its level.
func (c *climber) parse(min int) (string, int) {
	x, l := c.prefix()
	for {
		op := c.peek()
		if op == "" || op == ";" {
			return x, l
		}
		p := level(op)
		if p < min {
			return x, l
		}
		c.i++
		switch op {
		case "is null", "is not null", "is true", "is not false":
			x = "(" + op + " " + x + ")"
			l = pNot // no operand of a comparison
			continue
		case "collate x", "collate y":
			c.refused = c.refused || l <= pCmp
			x = "(" + op + " " + x + ")"
			l = p
			continue
		case "in (x)", "not in (x)":
			if l <= pCmp {
				c.refused = true
			}
			x = "(" + op + " " + x + ")"
			l = pCmp
			continue
		case "between", "not between":
			y, m := c.parse(pCmp + 1)
			c.refused = c.refused || c.peek() != ";"
			c.i++
			z, n := c.parse(pCmp + 1)
			if l <= pCmp || m <= pCmp || n <= pCmp {
				c.refused = true
			}
			x = "(" + op + " " + x + " " + y + " " + z + ")"
			l = pCmp
			continue
		}
		y, m := c.parse(p + 1)
		if p >= pCmp && (l <= pCmp || m <= pCmp) {
			c.refused = true
		}
		x = "(" + canonicalOp(op) + " " + x + " " + y + ")"
		l = p
	}
}

// shape is the form of a parsed expression.
func shape(e sqlparser.Expr) string {
	switch n := e.(type) {
	case *sqlparser.AndExpr:
		return "(and " + shape(n.Left) + " " + shape(n.Right) + ")"
	case *sqlparser.OrExpr:
		return "(or " + shape(n.Left) + " " + shape(n.Right) + ")"
	case *sqlparser.NotExpr:
		return "(not " + shape(n.Expr) + ")"
	case *sqlparser.ComparisonExpr:
		if t, ok := n.Right.(sqlparser.ValTuple); ok && len(t) == 1 {
			return "(" + n.Operator + " (" + shape(t[0]) + ") " + shape(n.Left) + ")"
		}
		return "(" + n.Operator + " " + shape(n.Left) + " " + shape(n.Right) + ")"
	case *sqlparser.RangeCond:
		return "(" + n.Operator + " " + shape(n.Left) + " " + shape(n.From) + " " + shape(n.To) + ")"
	case *sqlparser.IsExpr:
		return "(" + n.Operator + " " + shape(n.Expr) + ")"
	case *sqlparser.BinaryExpr:
		return "(" + n.Operator + " " + shape(n.Left) + " " + shape(n.Right) + ")"
	case *sqlparser.UnaryExpr:
		op := n.Operator
		if op == "binary " {
			op = "binary"
		}
		return "(u" + op + " " + shape(n.Expr) + ")"
	case *sqlparser.CollateExpr:
		return "(collate " + n.Charset + " " + shape(n.Expr) + ")"
	case *sqlparser.ColName:
		return n.Name.String()
	case *sqlparser.ParenExpr:
		return "[" + shape(n.Expr) + "]"
	}
	return "?"
}

var words = []string{"div", "mod", "<<", ">>", "and", "or", "&&", "||", "<=", ">=", "!=", "<>", "<=>", "like", "not like", "regexp", "not regexp", "is null", "is not null", "is true", "is not false", "in (x)", "not in (x)", "between", "not between", "collate x"}
var prefixes = []string{"", "not", "-", "~", "!", "binary", "+"}

// tree: n operators, up to p prefix operators.
func tree(n, p int) {
	var t []string
	text := ""
	add := func(s string) {
		t = append(t, s)
		text += " " + s
	}
	operand := func() {
		for p > 0 {
			k := sym.Choice(len(prefixes))
			if k == 0 {
				break
			}
			p--
			add(prefixes[k])
		}
		add(kit.Name(1))
	}
	operand()
	between := false
	for i := 0; i < n; i++ {
		k := sym.Choice(len(words) + 1)
		op := ""
		if k == 0 {
			op = string([]byte{sym.ByteIn("+-*/%&|^=<>")})
		} else {
			op = words[k-1]
		}
		add(op)
		switch op {
		case "is null", "is not null", "is true", "is not false", "in (x)", "not in (x)", "collate x":
			continue
		case "between", "not between":
			sym.Assume(!between)
			between = true
			operand()
			t = append(t, ";")
			text += " and"
		}
		operand()
	}
	c := climber{t: t}
	want, _ := c.parse(0)
	sym.Assume(!c.refused)
	sym.Dump(text)
	s, err := sqlparser.Parse("select 1 from t where" + text)
	sym.Assert(err == nil, "an expression is rejected")
	got := shape(s.(*sqlparser.Select).Where.Expr)
	sym.Dump(want)
	sym.Dump(got)
	sym.Assert(got == want, "operators are grouped otherwise than their precedence says")
	s2, err := sqlparser.Parse(sqlparser.String(s))
	sym.Assert(err == nil, "a printed expression is rejected")
	sym.Assert(shape(s2.(*sqlparser.Select).Where.Expr) == want, "a printed expression has another form")
	sym.Cover("end")
}

func HC14Tree()  { tree(2, 1) }
func HC14Tree3() { tree(3, 1) }
