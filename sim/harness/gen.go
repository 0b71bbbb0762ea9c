package main

import (
	"sort"
	"strconv"
	"strings"

	"github.com/akito0107/xsqlparser/dialect"
)

// sqlGen writes random SQL as a list of lexemes, each of which is exactly one
// token of the tokenizer.
type sqlGen struct {
	r        *Rand
	lex      []string
	dialect  string
	depth    int
	comments int  // percentage of separators with a comment
	weird    int  // percentage of unusual separators
	bigWords bool // now and then a very long word
	kwCase   int
	pool     []string
	base     int   // depth that statements start at: deeper is smaller
	bareAt   int   // length of lex after a table without an alias
	stmts    []int // the kinds of statements used, all if empty
	exprs    []int
	types    []int
}

func newSQLGen(r *Rand, dialect string) *sqlGen {
	g := &sqlGen{r: r, dialect: dialect}
	g.kwCase = r.Intn(4)
	switch r.Intn(4) {
	case 0:
		g.comments = 0
	case 1:
		g.comments = 3
	case 2:
		g.comments = 10
	case 3:
		g.comments = 30
	}
	g.weird = r.Pick2(0, 5, 20)
	small := r.small
	if small == 0 {
		small = 45
	}
	if r.P(small) {
		g.base = r.Range(2, 4)
	}
	theme := r.theme
	if theme == 0 && r.P(25) {
		theme = r.Next() | 1
	}
	if theme != 0 {
		q := NewRand(theme)
		for i := q.Range(1, 3); i > 0; i-- {
			g.stmts = append(g.stmts, q.Intn(20))
		}
		for i := q.Range(2, 6); i > 0; i-- {
			g.exprs = append(g.exprs, q.Intn(24))
		}
		for i := q.Range(1, 4); i > 0; i-- {
			g.types = append(g.types, q.Intn(18))
		}
	}
	for i := 0; i < 5; i++ {
		g.pool = append(g.pool, g.freshIdent())
	}
	return g
}

// pickOf picks one of l, or any number below n.
func pickOf(r *Rand, l []int, n int) int {
	if len(l) > 0 && r.P(90) {
		return l[r.Intn(len(l))]
	}
	return r.Intn(n)
}

func (r *Rand) Pick2(l ...int) int { return l[r.Intn(len(l))] }

var plainNames = []string{"a", "b", "id", "users", "t1", "col_x", "order_id", "Price", "public", "x9", "customers", "name", "test_id", "amount", "e"}

func (g *sqlGen) freshIdent() string {
	r := g.r
	switch r.Intn(12) {
	case 0, 1, 2, 3, 4:
		return plainNames[r.Intn(len(plainNames))]
	case 5, 6, 7:
		n := r.Range(1, 12)
		b := make([]byte, n)
		for i := range b {
			b[i] = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ"[r.Intn(52)]
			if i > 0 && r.P(20) {
				b[i] = "0123456789_"[r.Intn(11)]
			}
		}
		return string(b) + "_" + strconv.Itoa(r.Intn(50))
	case 8:
		return `"` + r.Pick("a b", "Group", "é", "日本語", "x.y", "sel'ect", "a;b", "--", "N") + `"`
	case 9:
		if g.dialect != "generic" && g.dialect != "custom" {
			return "`" + r.Pick("a b", "order", "ü", "key", "t") + "`"
		}
		return "Nx" + strconv.Itoa(r.Intn(9))
	case 10:
		return r.Pick("name", "value", "NAME", "Nation", "n", "N", "user", "type", "count", "sum", "rank")
	default:
		if r.P(10) {
			return strings.Repeat(r.Pick("long", "Lo_ng", "z"), r.Range(30, 500))
		}
		if r.P(10) {
			return strings.Repeat("y", magicLen(r, 2500))
		}
		if r.P(40) {
			return magicIdent(r)
		}
		return "q" + strconv.Itoa(r.Intn(1000))
	}
}

func (g *sqlGen) ident() string {
	if g.r.P(60) {
		return g.pool[g.r.Intn(len(g.pool))]
	}
	return g.freshIdent()
}

// colIdent avoids bare keywords that the grammar treats specially.
func (g *sqlGen) sep() {
	r := g.r
	if g.comments > 0 && r.P(g.comments) {
		if r.P(70) {
			g.lex = append(g.lex, " ")
		}
		if r.P(50) {
			c := r.Pick("c", "note", "", "日本", "it's", "/* x", "a;b", "SELECT") + strconv.Itoa(r.Intn(100))
			if r.P(6) {
				c = magicWord(r)
			}
			g.lex = append(g.lex, "--"+r.Pick(" ", " ", " ", "")+c, "\n")
		} else {
			g.lex = append(g.lex, "/* "+r.Pick("c", "multi\nline", "", "x\r\ny", "é", "--", "'", "a * b")+strconv.Itoa(r.Intn(100))+" */")
			if r.P(60) {
				g.lex = append(g.lex, r.Pick(" ", "\n"))
			} else {
				g.lex = append(g.lex, " ")
			}
		}
		return
	}
	if g.weird > 0 && r.P(g.weird) {
		n := r.Range(1, 4)
		if r.P(4) {
			n = r.Range(5, r.Pick2(12, 12, 100))
		}
		for i := 0; i < n; i++ {
			g.lex = append(g.lex, r.Pick(" ", " ", "\t", "\n", "\r\n", " "))
		}
		return
	}
	g.lex = append(g.lex, " ")
}

func isWordLex(s string) bool {
	if s == "" {
		return false
	}
	c := s[0]
	return c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c == '_' || c == '@' || c >= '0' && c <= '9' || c >= 0x80 || c == '"' || c == '`' || c == '\'' || c == '$'
}

func isSpaceLex(s string) bool {
	return s == " " || s == "\t" || s == "\n" || s == "\r\n" || s == "\r"
}

// put appends one lexeme, separated from the one before.
func (g *sqlGen) put(s string) {
	if n := len(g.lex); n > 0 {
		p := g.lex[n-1]
		if !isSpaceLex(p) {
			tight := p == "(" || s == ")" || s == "," || s == ";" || s == "("
			if strings.HasPrefix(p, "--") {
				g.lex = append(g.lex, "\n")
			} else if !(tight && g.r.P(75)) {
				g.sep()
			}
		}
	}
	g.lex = append(g.lex, s)
}

// glue appends a lexeme directly.
func (g *sqlGen) glue(s ...string) { g.lex = append(g.lex, s...) }

func (g *sqlGen) kw(words ...string) {
	for _, w := range words {
		switch g.kwCase {
		case 0:
		case 1:
			w = strings.ToLower(w)
		case 2:
			if g.r.P(50) {
				w = strings.ToLower(w)
			}
		case 3:
			b := []byte(strings.ToLower(w))
			for i := range b {
				if g.r.P(40) && b[i] >= 'a' && b[i] <= 'z' {
					b[i] -= 32
				}
			}
			w = string(b)
		}
		g.put(w)
	}
}

func (g *sqlGen) list(lo, hi int, f func()) {
	if g.base > 2 && hi > lo+1 {
		hi = lo + 1
	}
	n := g.r.Range(lo, hi)
	if hi > 2 && g.base <= 2 && g.depth <= 1 && g.r.Intn(400) == 0 {
		// a long one of short elements
		n = magicLen(g.r, 150)
		d, c := g.depth, g.comments
		g.depth, g.comments = 5, 0
		defer func() { g.depth, g.comments = d, c }()
	}
	for i := 0; i < n; i++ {
		if i > 0 {
			g.put(",")
		}
		f()
	}
}

func (g *sqlGen) objectName() {
	g.put(g.ident())
	if g.r.P(20) {
		g.glue(".", g.ident())
		for g.r.P(15) {
			g.glue(".", g.ident())
		}
	}
}

func (g *sqlGen) number() string {
	r := g.r
	if r.P(4) {
		// long ones, some of them too long
		b := make([]byte, r.Pick2(9, 10, 15, 16, 17, 18, 19, 20, 21, 40, 300, 2+magicLen(r, 1000)))
		for i := range b {
			b[i] = '0' + byte(r.Intn(10))
		}
		if r.P(50) {
			b[r.Range(1, len(b)-2)] = '.'
		} else if r.P(40) {
			copy(b, "00000000000000000000000000000000000000000"[:r.Intn(len(b))%40])
		}
		return string(b)
	}
	switch r.Intn(5) {
	case 0:
		return strconv.Itoa(r.Intn(10))
	case 1:
		return strconv.Itoa(r.Intn(100000))
	case 2:
		return strconv.Itoa(r.Intn(100)) + "." + strconv.Itoa(r.Intn(1000))
	case 3:
		return "0"
	default:
		return strconv.Itoa(r.Intn(1000))
	}
}

func (g *sqlGen) str() string {
	r := g.r
	s := r.Pick("", "a", "hello", "日本語", "é", "x y", "line\nbreak", "; DROP", "--c", "/*", "%", "yyyy-MM-dd", "\t", "😀", "tail''quote", "''", "\\", "\x00", "\ufeff", "\ufffd", "\u2028", "$1", "{x}", "?", "\x7f")
	if r.P(5) {
		s = strings.Repeat(r.Pick("ab", "日", "''"), r.Range(100, 900))
	}
	if r.P(5) {
		s = strings.ReplaceAll(magicWord(r), "'", "''")
	} else if r.P(2) {
		s = strings.Repeat("s", magicLen(r, 5000))
	}
	return "'" + s + "'"
}

func (g *sqlGen) literal() {
	r := g.r
	switch r.Intn(8) {
	case 0, 1, 2:
		g.put(g.number())
	case 3, 4:
		g.put(g.str())
	case 5:
		g.put("N" + g.str())
	case 6:
		g.kw(r.Pick("TRUE", "FALSE"))
	default:
		g.kw("NULL")
	}
}

func (g *sqlGen) expr() {
	g.depth++
	defer func() { g.depth-- }()
	r := g.r
	k := pickOf(r, g.exprs, 24)
	if g.depth > 4 {
		k = r.Intn(6)
	}
	switch k {
	case 0, 1:
		g.literal()
	case 2, 3:
		g.put(g.ident())
	case 4, 5:
		g.put(g.ident())
		g.glue(".", g.ident())
		for r.P(12) {
			g.glue(".", g.ident())
		}
	case 6, 7, 8:
		op := r.Intn(16)
		if g.depth > 1 && r.P(12) || g.depth == 1 && r.P(25) {
			// a chain of short operands
			d := g.depth
			g.depth = 4
			if r.P(20) {
				g.depth = 3
			}
			g.expr()
			for n := r.Range(2, 6); n > 0; n-- {
				g.operator(op)
				g.expr()
				if r.P(20) {
					op = r.Intn(16)
				}
			}
			g.depth = d
			break
		}
		g.expr()
		g.operator(op)
		g.expr()
	case 9:
		g.put("(")
		g.expr()
		g.put(")")
	case 10:
		g.expr()
		g.kw("IS")
		if r.P(50) {
			g.kw("NOT")
		}
		g.kw("NULL")
	case 11:
		g.put(g.ident())
		if r.P(40) {
			g.kw("NOT")
		}
		g.kw("IN")
		g.put("(")
		if r.P(30) {
			g.query()
		} else {
			g.list(1, 4, g.expr)
		}
		g.put(")")
	case 12:
		g.put(g.ident())
		if r.P(40) {
			g.kw("NOT")
		}
		g.kw("BETWEEN")
		g.literal()
		g.kw("AND")
		g.literal()
	case 13:
		g.kw("CAST")
		g.put("(")
		g.expr()
		g.kw("AS")
		g.dataType()
		g.put(")")
	case 14:
		g.put(g.ident())
		g.put("::")
		g.dataType()
	case 15:
		g.kw("CASE")
		if r.P(40) {
			g.expr()
		}
		n := r.Range(1, 3)
		for i := 0; i < n; i++ {
			g.kw("WHEN")
			g.expr()
			g.kw("THEN")
			g.expr()
		}
		if r.P(60) {
			g.kw("ELSE")
			g.expr()
		}
		g.kw("END")
	case 16, 17:
		g.function()
	case 18:
		if r.P(40) {
			g.kw("NOT")
		}
		g.kw("EXISTS")
		g.put("(")
		g.query()
		g.put(")")
	case 19:
		g.put("(")
		g.query()
		g.put(")")
	case 20:
		g.put(r.Pick("-", "+"))
		g.expr()
	case 21:
		g.kw("NOT")
		g.expr()
	case 22:
		// a deep nest
		n := r.Range(3, 14)
		for i := 0; i < n; i++ {
			g.put("(")
		}
		g.literal()
		for i := 0; i < n; i++ {
			g.put(")")
		}
	default:
		g.literal()
	}
}

func (g *sqlGen) operator(op int) {
	switch op {
	case 0:
		g.put("=")
	case 1:
		g.put("<>")
	case 2:
		g.put("!=")
	case 3:
		g.put("<")
	case 4:
		g.put("<=")
	case 5:
		g.put(">")
	case 6:
		g.put(">=")
	case 7:
		g.put("+")
	case 8:
		g.put("-")
	case 9:
		g.put("*")
	case 10:
		g.put("/")
	case 11:
		g.put("%")
	case 12:
		g.kw("AND")
	case 13:
		g.kw("OR")
	case 14:
		g.kw("LIKE")
	case 15:
		g.kw("NOT", "LIKE")
	}
}

func (g *sqlGen) function() {
	r := g.r
	g.put(r.Pick("COUNT", "sum", "AVG", "now", "f", "pkg_fn", "Max"))
	if r.P(15) {
		g.glue(".", "g")
	}
	g.glue("(")
	switch r.Intn(4) {
	case 0:
	case 1:
		g.put("*")
	default:
		g.list(1, 3, g.expr)
	}
	g.put(")")
	if r.P(35) {
		g.kw("OVER")
		g.put("(")
		if r.P(60) {
			g.kw("PARTITION", "BY")
			g.list(1, 2, g.expr)
		}
		if r.P(60) {
			g.kw("ORDER", "BY")
			g.orderList()
		}
		if r.P(50) {
			g.kw(r.Pick("ROWS", "RANGE", "GROUPS"))
			if r.P(60) {
				g.kw("BETWEEN")
				g.bound()
				g.kw("AND")
				g.bound()
			} else {
				g.bound()
			}
		}
		g.put(")")
	}
}

func (g *sqlGen) bound() {
	switch g.r.Intn(4) {
	case 0:
		g.kw("CURRENT", "ROW")
	case 1:
		g.kw("UNBOUNDED", g.r.Pick("PRECEDING", "FOLLOWING"))
	default:
		g.put(strconv.Itoa(g.r.Intn(20)))
		g.kw(g.r.Pick("PRECEDING", "FOLLOWING"))
	}
}

func (g *sqlGen) orderList() {
	g.list(1, 3, func() {
		g.expr()
		switch g.r.Intn(3) {
		case 0:
			g.kw("ASC")
		case 1:
			g.kw("DESC")
		}
	})
}

func (g *sqlGen) dataType() {
	r := g.r
	switch pickOf(r, g.types, 18) {
	case 0:
		g.kw("INT")
		if r.P(30) {
			g.kw("UNSIGNED")
		}
	case 1:
		g.kw("INTEGER")
	case 2:
		g.kw("BIGINT")
		if r.P(30) {
			g.kw("UNSIGNED")
		}
	case 3:
		g.kw("SMALLINT")
	case 4:
		g.kw("VARCHAR")
		g.put("(")
		g.put(strconv.Itoa(r.Intn(300)))
		g.put(")")
	case 5:
		g.kw("CHARACTER", "VARYING")
		if r.P(50) {
			g.put("(")
			g.put(strconv.Itoa(r.Intn(300)))
			g.put(")")
		}
	case 6:
		g.kw("CHAR")
		if r.P(50) {
			g.put("(")
			g.put(strconv.Itoa(r.Intn(300)))
			g.put(")")
		}
	case 7:
		g.kw("UUID")
	case 8:
		g.kw("DATE")
	case 9:
		g.kw("TIMESTAMP")
		if r.P(60) {
			g.kw(r.Pick("WITH", "WITHOUT"), "TIME", "ZONE")
		}
	case 10:
		g.kw("TIME")
	case 11:
		g.kw("TEXT")
		if r.P(30) {
			g.put("[")
			g.put("]")
		}
	case 12:
		g.kw("BYTEA")
	case 13:
		g.kw("NUMERIC")
		g.put("(")
		g.put(strconv.Itoa(r.Intn(30)))
		if r.P(60) {
			g.put(",")
			g.put(strconv.Itoa(r.Intn(9)))
		}
		g.put(")")
	case 14:
		g.kw("BOOLEAN")
	case 15:
		g.kw(r.Pick("FLOAT", "REAL", "REGCLASS"))
	case 16:
		g.kw("DOUBLE", "PRECISION")
	default:
		g.objectName()
	}
}

func (g *sqlGen) query() {
	g.depth++
	defer func() { g.depth-- }()
	r := g.r
	if r.P(12) && g.depth < 4 {
		g.kw("WITH")
		g.list(1, 2, func() {
			g.put(g.ident())
			g.kw("AS")
			g.put("(")
			g.query()
			g.put(")")
		})
	}
	g.body()
	for g.depth < 4 && r.P(12) {
		g.kw(r.Pick("UNION", "EXCEPT", "INTERSECT"))
		if r.P(30) {
			g.kw("ALL")
		}
		g.body()
	}
	if r.P(25) {
		g.kw("ORDER", "BY")
		g.orderList()
	}
	if r.P(25) {
		if g.bareAt == len(g.lex) {
			// LIMIT would be taken as the alias
			g.kw("AS")
			g.put("al" + strconv.Itoa(r.Intn(20)))
		}
		g.kw("LIMIT")
		if r.P(15) {
			g.kw("ALL")
		} else {
			g.put(strconv.Itoa(r.Intn(1000)))
			if r.P(40) {
				g.kw("OFFSET")
				g.put(strconv.Itoa(r.Intn(1000)))
			}
		}
	}
}

func (g *sqlGen) body() {
	r := g.r
	if g.depth < 4 && r.P(6) {
		g.put("(")
		g.query()
		g.put(")")
		return
	}
	g.kw("SELECT")
	if r.P(10) {
		g.kw("DISTINCT")
	}
	g.list(1, 4, func() {
		switch r.Intn(8) {
		case 0:
			g.put("*")
		case 1:
			g.put(g.ident())
			g.glue(".", "*")
		default:
			g.expr()
			if r.P(30) {
				g.kw("AS")
				g.put(g.freshIdent())
			} else {
				g.bareAt = len(g.lex)
			}
		}
	})
	if r.P(85) {
		g.kw("FROM")
		g.list(1, 2, func() { g.tableRef(0) })
	}
	if r.P(50) {
		g.kw("WHERE")
		g.expr()
	}
	if r.P(20) {
		g.kw("GROUP", "BY")
		g.list(1, 3, g.expr)
		if r.P(40) {
			g.kw("HAVING")
			g.expr()
		}
	}
}

func (g *sqlGen) tableRef(d int) {
	r := g.r
	g.factor()
	for d < 2 && r.P(25) {
		switch r.Intn(4) {
		case 0:
			g.kw("CROSS", "JOIN")
			g.factor()
			return
		case 1:
			g.kw("NATURAL")
			if r.P(50) {
				g.kw(r.Pick("LEFT", "RIGHT", "FULL", "INNER"))
				if r.P(20) {
					// only after LEFT, RIGHT, FULL; an error otherwise, which is fine
					g.kw("OUTER")
				}
			}
			g.kw("JOIN")
			g.factor()
			return
		default:
			switch r.Intn(5) {
			case 0:
				g.kw("INNER")
			case 1:
				g.kw("LEFT")
			case 2:
				g.kw("RIGHT", "OUTER")
			case 3:
				g.kw("FULL", "OUTER")
			}
			g.kw("JOIN")
			g.factor()
			if r.P(60) {
				g.kw("ON")
				g.expr()
			} else {
				g.kw("USING")
				g.put("(")
				g.list(1, 3, func() { g.put(g.ident()) })
				g.put(")")
			}
		}
		d++
	}
}

func (g *sqlGen) alias() {
	if g.r.P(40) {
		if g.r.P(60) {
			g.kw("AS")
		}
		g.put("al" + strconv.Itoa(g.r.Intn(20)))
		return
	}
	g.bareAt = len(g.lex)
}

func (g *sqlGen) factor() {
	r := g.r
	if g.depth < 4 && r.P(15) {
		if r.P(20) {
			g.kw("LATERAL")
		}
		g.put("(")
		g.query()
		g.put(")")
		g.alias()
		return
	}
	g.objectName()
	g.alias()
	if r.P(4) {
		g.kw("WITH")
		g.put("(")
		g.put("NOLOCK")
		g.put(")")
	}
}

func (g *sqlGen) assignments() {
	g.list(1, 4, func() {
		g.put(g.ident())
		g.put("=")
		g.expr()
	})
}

func (g *sqlGen) columns() {
	g.put("(")
	g.list(1, 4, func() { g.put(g.ident()) })
	g.put(")")
}

func (g *sqlGen) columnDef() {
	r := g.r
	g.put(g.ident())
	g.dataType()
	if r.P(25) {
		g.kw("DEFAULT")
		if r.P(30) {
			g.function()
		} else {
			g.literal()
		}
	}
	for r.P(30) {
		if r.P(20) {
			g.kw("CONSTRAINT")
			g.put(g.ident())
		}
		switch r.Intn(5) {
		case 0:
			g.kw("NOT", "NULL")
		case 1:
			g.kw("UNIQUE")
		case 2:
			g.kw("PRIMARY", "KEY")
		case 3:
			g.kw("REFERENCES")
			g.objectName()
			g.columns()
		case 4:
			g.kw("CHECK")
			g.put("(")
			g.expr()
			g.put(")")
		}
	}
	if g.dialect == "mysql" && r.P(20) {
		g.kw("AUTO_INCREMENT")
	}
}

func (g *sqlGen) tableConstraint() {
	r := g.r
	if r.P(50) {
		g.kw("CONSTRAINT")
		g.put(g.ident())
	}
	switch r.Intn(4) {
	case 0:
		g.kw("UNIQUE")
		g.columns()
	case 1:
		g.kw("PRIMARY", "KEY")
		g.columns()
	case 2:
		g.kw("FOREIGN", "KEY")
		g.columns()
		g.kw("REFERENCES")
		g.put(g.ident())
		g.columns()
	case 3:
		g.kw("CHECK")
		g.put("(")
		g.expr()
		g.put(")")
	}
}

func (g *sqlGen) statement() {
	r := g.r
	g.depth = g.base
	switch pickOf(r, g.stmts, 20) {
	case 0, 1, 2, 3, 4, 5:
		g.query()
	case 6, 7, 8:
		g.kw("INSERT", "INTO")
		g.objectName()
		if r.P(70) {
			g.columns()
		}
		if r.P(20) {
			g.query()
		} else {
			g.kw("VALUES")
			g.list(1, 3, func() {
				g.put("(")
				g.list(1, 4, g.expr)
				g.put(")")
			})
		}
		if g.dialect == "mysql" && r.P(30) {
			g.kw("ON", "DUPLICATE", "KEY", "UPDATE")
			g.assignments()
		}
	case 9, 10:
		g.kw("UPDATE")
		g.objectName()
		g.kw("SET")
		g.assignments()
		if r.P(70) {
			g.kw("WHERE")
			g.expr()
		}
	case 11:
		g.kw("DELETE", "FROM")
		g.objectName()
		if r.P(70) {
			g.kw("WHERE")
			g.expr()
		}
	case 12, 13, 14:
		g.kw("CREATE", "TABLE")
		if r.P(20) {
			g.kw("IF", "NOT", "EXISTS")
		}
		g.objectName()
		g.put("(")
		g.list(1, 5, func() {
			if r.P(25) {
				g.tableConstraint()
			} else {
				g.columnDef()
			}
		})
		g.put(")")
		if g.dialect == "mysql" && r.P(50) {
			if r.P(70) {
				g.kw("ENGINE")
				if r.P(70) {
					g.put("=")
				}
				g.put("InnoDB")
			}
			if r.P(50) {
				if r.P(50) {
					g.kw("DEFAULT")
				}
				g.kw("CHARSET")
				if r.P(50) {
					g.put("=")
				}
				g.put("utf8mb4")
			}
		}
	case 15:
		g.kw("CREATE")
		if r.P(30) {
			g.kw("MATERIALIZED")
		}
		g.kw("VIEW")
		g.objectName()
		g.kw("AS")
		g.query()
	case 16:
		g.kw("CREATE")
		if r.P(30) {
			g.kw("UNIQUE")
		}
		g.kw("INDEX")
		if r.P(70) {
			g.put(g.ident())
		}
		g.kw("ON")
		g.objectName()
		if r.P(40) {
			g.kw("USING")
			g.put(g.ident())
		}
		g.columns()
		if r.P(40) {
			g.kw("WHERE")
			g.expr()
		}
	case 17:
		g.kw("ALTER", "TABLE")
		g.objectName()
		switch r.Intn(9) {
		case 0:
			g.kw("ADD", "COLUMN")
			g.columnDef()
		case 1:
			g.kw("ADD")
			g.tableConstraint()
		case 2:
			g.kw("DROP", "CONSTRAINT")
			g.put(g.ident())
			if r.P(50) {
				g.kw("CASCADE")
			}
		case 3:
			g.kw("DROP", "COLUMN")
			g.put(g.ident())
			if r.P(50) {
				g.kw("CASCADE")
			}
		case 4:
			g.kw("ALTER", "COLUMN")
			g.put(g.ident())
			g.kw("SET", "DEFAULT")
			g.literal()
		case 5:
			g.kw("ALTER", "COLUMN")
			g.put(g.ident())
			g.kw("DROP", "DEFAULT")
		case 6:
			g.kw("ALTER", "COLUMN")
			g.put(g.ident())
			g.kw("TYPE")
			g.dataType()
		case 7:
			g.kw("ALTER", "COLUMN")
			g.put(g.ident())
			g.kw("SET", "NOT", "NULL")
		case 8:
			g.kw("ALTER", "COLUMN")
			g.put(g.ident())
			g.kw("DROP", "NOT", "NULL")
		}
	case 18:
		g.kw("DROP")
		if r.P(60) {
			g.kw("TABLE")
			if r.P(40) {
				g.kw("IF", "EXISTS")
			}
			g.objectName()
			if r.P(40) {
				g.kw("CASCADE")
			}
		} else {
			g.kw("INDEX")
			g.list(1, 3, func() { g.put(g.ident()) })
		}
	case 19:
		g.kw("EXPLAIN")
		if r.P(50) {
			d := g.depth
			g.depth = 4 // no parenthesis
			g.query()
			g.depth = d
		} else {
			g.kw("DELETE", "FROM")
			g.objectName()
		}
	}
}

// text is a generated input.
type text struct {
	lex  []string
	ends []int // end offsets of the statements (after their semicolon), as lexeme counts
}

func (t *text) String() string { return strings.Join(t.lex, "") }

// offsets returns the end offset in bytes of every lexeme.
func (t *text) offsets() []int {
	var o []int
	n := 0
	for _, l := range t.lex {
		n += len(l)
		o = append(o, n)
	}
	return o
}

var dialects = []string{"generic", "mysql", "postgres", "custom"}

func pickDialect(r *Rand) string {
	return r.Pick("generic", "generic", "mysql", "mysql", "postgres", "postgres", "custom")
}

// genScript makes a script of n statements; every statement but perhaps the
// last ends with a semicolon.
func genScript(r *Rand, dialect string, n int, lastSemi bool) *text {
	g := newSQLGen(r, dialect)
	t := &text{}
	if r.P(15) {
		g.lex = append(g.lex, "-- head", "\n")
	}
	for i := 0; i < n; i++ {
		g.statement()
		if i < n-1 || lastSemi {
			g.put(";")
		}
		t.ends = append(t.ends, len(g.lex))
		if i < n-1 || r.P(30) {
			if r.P(70) {
				g.lex = append(g.lex, "\n")
			}
			if r.P(20) {
				if last := g.lex[len(g.lex)-1]; !strings.HasPrefix(last, "--") {
					g.lex = append(g.lex, "-- tail of "+strconv.Itoa(i), "\n")
				}
			}
		}
	}
	t.lex = g.lex
	return t
}

func genExprText(r *Rand, dialect string) *text {
	g := newSQLGen(r, dialect)
	g.expr()
	return &text{lex: g.lex}
}

func genTypeText(r *Rand, dialect string) *text {
	g := newSQLGen(r, dialect)
	g.dataType()
	return &text{lex: g.lex}
}

// padTo makes the text longer so that interesting places fall near the borders
// of internal buffers (1024 bytes and multiples, bufio's 4096).
func padTo(r *Rand, t *text) {
	borders := []int{1020, 1022, 1023, 1024, 1025, 2047, 2048, 4095, 4096, 4097, 8192}
	b := borders[r.Intn(len(borders))] - r.Intn(40)
	if r.P(20) {
		b = magicLen(r, 12000) - r.Intn(40)
	}
	var pre []string
	n := 0
	for n < b {
		switch r.Intn(3) {
		case 0:
			pre = append(pre, "-- "+strings.Repeat("pad ", r.Range(1, 10)), "\n")
			n += len(pre[len(pre)-2]) + 1
		case 1:
			pre = append(pre, " ", "\n")
			n += 2
		case 2:
			c := "/* " + strings.Repeat("é", r.Range(1, 20)) + " */"
			pre = append(pre, c)
			n += len(c)
		}
	}
	t.lex = append(pre, t.lex...)
	for i := range t.ends {
		t.ends[i] += len(pre)
	}
}

// corrupt damages a text the way a bad transport or disk does.
func corrupt(r *Rand, s string) string {
	b := []byte(s)
	n := r.Range(1, 3)
	if r.P(15) {
		n = r.Range(3, 10)
	}
	spell := r.P(20)
	if spell {
		n = 1
	}
	for i := 0; i < n; i++ {
		if len(b) == 0 {
			b = append(b, byte(r.Next()))
			continue
		}
		p := r.Intn(len(b))
		kind := r.Intn(13)
		if spell {
			kind = 11
		}
		switch kind {
		case 0: // cut off
			b = b[:p]
		case 1: // bit flip
			b[p] ^= 1 << uint(r.Intn(8))
		case 2: // lost range
			q := p + r.Range(1, 12)
			if q > len(b) {
				q = len(b)
			}
			b = append(b[:p:p], b[q:]...)
		case 3: // repeated range
			q := p + r.Range(1, 20)
			if q > len(b) {
				q = len(b)
			}
			c := append([]byte{}, b[:q]...)
			c = append(c, b[p:q]...)
			b = append(c, b[q:]...)
		case 4: // moved range
			q := p + r.Range(1, 20)
			if q > len(b) {
				q = len(b)
			}
			seg := append([]byte{}, b[p:q]...)
			rest := append(append([]byte{}, b[:p]...), b[q:]...)
			k := r.Intn(len(rest) + 1)
			b = append(append(append([]byte{}, rest[:k]...), seg...), rest[k:]...)
		case 5: // garbage bytes
			q := r.Range(1, 6)
			g := make([]byte, q)
			for j := range g {
				g[j] = byte(r.Next())
			}
			b = append(b[:p:p], append(g, b[p:]...)...)
		case 6: // stray structural character
			b = append(b[:p:p], append([]byte(r.Pick("(", ")", "'", "\"", "`", ";", ",", "--", "/*", "*/", ".", "::", "!", "\\", "[", "]", "{", "}", "&", "\x00", "\xff", "\xef\xbb\xbf", "\u2028", "N'", "=", "<", "-", "/", ":", "\r")), b[p:]...)...)
		case 7: // lost character
			b = append(b[:p:p], b[p+1:]...)
		case 8: // stray keyword
			b = append(b[:p:p], append([]byte(" "+r.Pick("SELECT", "FROM", "WHERE", "NOT", "NULL", "CASE", "END", "AS", "ON", "JOIN", "LIMIT", "VALUES", "CONSTRAINT", "KEY", "INTERVAL", "CREATE", "TABLE", "OVER", "BETWEEN", "WITH", "DEFAULT", "ENGINE", "CHARSET", "EXISTS", "CAST", "IN", "SET", "DROP", "ALTER", "COLUMN", "ADD", "NUMERIC", "TIMESTAMP", "DOUBLE")+" "), b[p:]...)...)
		case 9: // zeroed block
			q := p + r.Range(1, 30)
			for j := p; j < q && j < len(b); j++ {
				b[j] = 0
			}
		case 11, 12: // misspelled word
			q := p
			for p > 0 && isLetter(b[p-1]) {
				p--
			}
			for q < len(b) && isLetter(b[q]) {
				q++
			}
			if i == 0 && r.P(40) {
				// the first one
				for p = 0; p < len(b) && !isLetter(b[p]); p++ {
				}
				for q = p; q < len(b) && isLetter(b[q]); q++ {
				}
			}
			w := append([]byte{}, b[p:q]...)
			if len(w) == 0 {
				continue
			}
			if r.P(50) {
				w = []byte(keywordList[r.Intn(len(keywordList))])
			}
			k := r.Intn(len(w))
			c := byte('A' + r.Intn(26))
			switch r.Intn(4) {
			case 0:
				w[k] = c
			case 1:
				w = append(w[:k:k], w[k+1:]...)
			case 2:
				w = append(w[:k:k], append([]byte{c}, w[k:]...)...)
			case 3:
				j := r.Intn(len(w))
				w[k], w[j] = w[j], w[k]
			}
			b = append(b[:p:p], append(w, b[q:]...)...)
		case 10: // cut at a space, mid statement
			k := strings.LastIndexByte(string(b[:p+1]), ' ')
			if k >= 0 {
				b = b[:k]
			}
		}
	}
	return string(b)
}

var keywordList = func() (l []string) {
	for k := range dialect.Keywords {
		l = append(l, k)
	}
	sort.Strings(l)
	return
}()

func isLetter(c byte) bool { return c|0x20 >= 'a' && c|0x20 <= 'z' || c == '_' }

// longTree is the text of a tree with a long list or chain or deep nest.
func longTree(r *Rand, d string) string {
	n := r.Pick2(r.Range(8, 60), r.Range(20, 150), magicLen(r, 300)+2)
	if r.P(40) {
		f, parts := genParts(r, d)
		p := &Plan{S: Bytes(f), Ops: []*Op{{}}}
		for _, s := range parts {
			p.Ops = append(p.Ops, &Op{SQL: Bytes(s)})
		}
		s := longTextOf(p, n)
		for len(s) > 3000 && n > 1 {
			n /= 2
			s = longTextOf(p, n)
		}
		return s
	}
	f := families[r.Intn(len(families))]
	s := longText(f, "a", "SELECT a FROM t", "int", n)
	for len(s) > 3000 && n > 1 {
		n /= 2
		s = longText(f, "a", "SELECT a FROM t", "int", n)
	}
	return s
}

// deepText nests constructs deeply: work must stay bounded.
func deepText(r *Rand) string {
	n := r.Range(8, 60)
	if r.P(15) {
		n = r.Range(60, 250)
	} else if r.P(20) {
		n = magicLen(r, r.Pick2(300, 300, 300, 1500)) + 2
	}
	if k := r.Intn(10); k < 4 {
		d := pickDialect(r)
		f, parts := genParts(r, d)
		p := &Plan{S: Bytes(f), Ops: []*Op{{}}}
		for _, s := range parts {
			p.Ops = append(p.Ops, &Op{SQL: Bytes(s)})
		}
		s := longTextOf(p, n)
		for len(s) > 60000 && n > 1 {
			n /= 2
			s = longTextOf(p, n)
		}
		return s
	} else if k < 7 {
		return longText(families[r.Intn(len(families))], "a", "SELECT a FROM t", "int", n)
	}
	switch r.Intn(9) {
	case 0:
		return "SELECT " + strings.Repeat("(", n) + "1" + strings.Repeat(")", n-r.Intn(3))
	case 1:
		return "SELECT " + strings.Repeat("CASE WHEN ", n) + "1"
	case 2:
		return "SELECT * FROM " + strings.Repeat("(SELECT * FROM ", n) + "t" + strings.Repeat(")", n-r.Intn(3))
	case 3:
		return "SELECT " + strings.Repeat("f(", n) + strings.Repeat(")", n-r.Intn(3))
	case 4:
		return strings.Repeat("EXPLAIN ", n) + "SELECT 1"
	case 5:
		return "SELECT a " + strings.Repeat("AND NOT b IN (1) ", n)
	case 6:
		return strings.Repeat("(", n) + "SELECT 1" + strings.Repeat(")", n)
	case 7:
		return "SELECT " + strings.Repeat("- ", n) + "1" + strings.Repeat(" + -1", n)
	default:
		return "SELECT 1 WHERE " + strings.Repeat("EXISTS (SELECT 1 WHERE ", n) + "1" + strings.Repeat(")", n)
	}
}

// foreign is a piece of text of characters beyond ASCII.
func foreign(r *Rand) string {
	s := ""
	for i := r.Range(1, 4); i > 0; i-- {
		s += r.Pick("\u00e9", "\u00df", "\u0130", "\u65e5", "\u672c\u8a9e", "\U0001F600", "\U0001D54F", "e\u0301", "\u200b", "\u00a0", "\u2028", "\u3000", "\ufffd", "\uff1b", "\uff08", "\ufeff", "\U0010FFFF", "\u0394", "\u0416", "\u05d0", "\uac00")
	}
	return s
}

// insertForeign puts such a piece somewhere into a text and returns where.
func insertForeign(r *Rand, s string) (string, int, int) {
	f := foreign(r)
	p := r.Intn(len(s) + 1)
	if i := strings.IndexAny(s[p:], " ;,()'\"`\n"); i >= 0 && r.P(70) {
		p += i + r.Intn(2)
	}
	return s[:p] + f + s[p:], p, p + len(f)
}
