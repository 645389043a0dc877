package checks

import (
	"fmt"
	"strconv"
	"strings"

	"github.com/schemalex/schemalex/model"

	"schemaverif/fw"
	"schemaverif/ref"
)

// Instances of every size: nothing may depend on how many elements there are, or
// how long a name or a value is. The sizes are all up to 69, and around the
// powers of two and of ten.

func sizes(limit int) (o []int) {
	for n := 0; n < 70 && n <= limit; n++ {
		o = append(o, n)
	}
	for _, p := range []int{100, 128, 200, 256, 500, 512, 1000, 1024, 2048, 4096, 8192, 10000, 16384, 32768, 65536, 100000} {
		for n := p - 1; n <= p+1; n++ {
			if n >= 70 && n <= limit {
				o = append(o, n)
			}
		}
	}
	return o
}

// times repeats a unit; # in it is the number of the repetition.
func times(unit string, n int) string {
	if !strings.Contains(unit, "#") {
		return strings.Repeat(unit, n)
	}
	var b strings.Builder
	for i := 1; i <= n; i++ {
		b.WriteString(strings.ReplaceAll(unit, "#", strconv.Itoa(i)))
	}
	return b.String()
}

// lists are repetitions of elements.
var lists = [][3]string{
	{"CREATE TABLE t (a INT", ", b# INT", ")"}, {"CREATE TABLE t (", "b# INT, ", "a INT)"}, {"CREATE TABLE t (a INT", ", b# VARCHAR(#) NOT NULL DEFAULT 'x#' COMMENT 'y#'", ") ENGINE = x"}, {"CREATE TABLE t (a INT", ", b# INT UNIQUE", ")"},
	{"CREATE TABLE t (a ENUM ('x'", ",'y#'", "))"}, {"CREATE TABLE t (a SET ('x'", ",'y#'", ") NOT NULL, b INT)"}, {"CREATE TABLE t (a INT, KEY k (a", ", b#", "))"}, {"CREATE TABLE t (a INT, UNIQUE u (a(3) DESC", ", b#(#) ASC", "), KEY (a))"},
	{"CREATE TABLE t (FOREIGN KEY (a", ", b#", ") REFERENCES p (x))"}, {"CREATE TABLE t (CONSTRAINT f FOREIGN KEY (a) REFERENCES p (x", ", y#", ") ON DELETE CASCADE)"}, {"CREATE TABLE t (a INT", ", KEY k# (a)", ")"}, {"CREATE TABLE t (a INT", ", CONSTRAINT f# FOREIGN KEY (a) REFERENCES p# (x#)", ")"},
	{"CREATE TABLE t (a INT", ", CONSTRAINT c# UNIQUE KEY u# (a)", ", b INT)"}, {"CREATE TABLE t (a INT)", " MAX_ROWS = #,", " ENGINE y"}, {"CREATE TABLE t (a INT)", " ENGINE e#", ""},
	{"", "CREATE TABLE t# (a# INT);", ""}, {"CREATE TABLE t (a INT)", ";\nCREATE TABLE u# LIKE t", ";"}, {"", "DROP x#;", "CREATE TABLE t (a INT)"}, {"", "CREATE DATABASE d#;", "CREATE TABLE t (a INT)"}, {"SET @x = 1", ", @y# = 'z;'", ";CREATE TABLE t (a INT)"},
}

// lengths are repetitions of characters, within one element.
var lengths = [][3]string{
	{"CREATE TABLE t", "x", " (a INT)"}, {"CREATE TABLE `", "``", "` (a INT)"}, {"CREATE TABLE `", "é", "` (a INT)"}, {"CREATE TABLE t (c", "o", " INT NOT NULL, b INT)"}, {"CREATE TABLE t (`", "o ", "` INT)"}, {"CREATE TABLE t (a INT, KEY k", "x", " (a))"}, {"CREATE TABLE t (a INT, KEY (a", "x", "))"},
	{"CREATE TABLE t (CONSTRAINT f", "x", " FOREIGN KEY (a) REFERENCES p (y))"}, {"CREATE TABLE t (FOREIGN KEY (a) REFERENCES p", "x", " (y))"}, {"CREATE TABLE t (FOREIGN KEY (a) REFERENCES p (y", "x", "))"}, {"CREATE TABLE t (FULLTEXT (a) WITH PARSER p", "x", ")"},
	{"CREATE TABLE t (a INT COMMENT '", "c", "')"}, {"CREATE TABLE t (a INT COMMENT '", "''", "')"}, {"CREATE TABLE t (a INT COMMENT \"", "\\\"", "\", b INT)"}, {"CREATE TABLE t (a INT COMMENT '", "\\\\", "')"}, {"CREATE TABLE t (a INT COMMENT '", "\n", "')"}, {"CREATE TABLE t (a INT COMMENT '", "é", "')"},
	{"CREATE TABLE t (a CHAR(9) DEFAULT '", "d", "')"}, {"CREATE TABLE t (a INT DEFAULT 1", "0", ")"}, {"CREATE TABLE t (a INT DEFAULT '1", "0", "')"}, {"CREATE TABLE t (a INT DEFAULT -1.", "5", ")"}, {"CREATE TABLE t (a DOUBLE DEFAULT '", "7", ".5e3')"}, {"CREATE TABLE t (a TIMESTAMP DEFAULT w", "x", ")"}, {"CREATE TABLE t (a INT(1", "0", "))"}, {"CREATE TABLE t (a DECIMAL(1,2", "0", "))"},
	{"CREATE TABLE t (a ENUM ('x', '", "y", "'))"}, {"CREATE TABLE t (a TEXT CHARACTER SET c", "x", ")"}, {"CREATE TABLE t (a TEXT COLLATE c", "x", ")"}, {"CREATE TABLE t (a INT, KEY (a(1", "0", ")))"}, {"CREATE TABLE t (a INT) ENGINE = e", "x", ""}, {"CREATE TABLE t (a INT) COMMENT = '", "x", "'"}, {"CREATE TABLE t (a INT) MAX_ROWS = 1", "0", ""}, {"CREATE TABLE t (a INT) AUTO_INCREMENT 1", "0", ", ENGINE x"},
	{"CREATE TABLE t (a INT, b TIMESTAMP ON UPDATE u", "x", ")"}, {"CREATE TABLE t LIKE u", "x", ";"}, {"DROP '", "x", "'; CREATE TABLE t (a INT)"}, {"CREATE DATABASE d", "x", "; CREATE TABLE t (a INT)"},
}

// fillers are repetitions of what does not matter.
var fillers = [][3]string{
	{"", " ", "CREATE TABLE t (a INT)"}, {"CREATE TABLE t", " ", "(a INT)"}, {"CREATE TABLE t", "\n", "(a INT)"}, {"CREATE TABLE t (", "\t", "a INT)"}, {"CREATE TABLE t (a", "\r\n", " INT, b INT)"}, {"CREATE TABLE t (a INT", " ", ")"}, {"CREATE TABLE t (a INT) ", "  ", "ENGINE = x"}, {"CREATE TABLE t (a INT)", "\n", ""},
	{"", ";", "CREATE TABLE t (a INT)"}, {"CREATE TABLE t (a INT)", ";", ""}, {"", "/**/", "CREATE TABLE t (a INT)"}, {"CREATE /*", "*", "*/ TABLE t (a INT)"}, {"CREATE /*", " x\n", "*/ TABLE t (a INT)"}, {"CREATE TABLE t (a -- ", "-", "\nINT)"}, {"CREATE TABLE t (a # ", "#", "\nINT)"}, {"CREATE TABLE t (a INT)", "-- x\n", ";"}, {"CREATE", "/* x */ ", "TABLE t (a INT)"},
	{"CREATE TABLE t (a INT", " NOT NULL", ")"}, {"CREATE TABLE t (a INT", " UNIQUE", ")"}, {"CREATE TABLE t (a INT)", " ENGINE = x,", " ENGINE y"},
}

// sizedTexts calls f for texts of all sizes.
func sizedTexts(c *fw.Ctx, limit int, f func(text string)) {
	for _, l := range [][][3]string{lists, lengths, fillers} {
		for _, x := range l {
			for _, n := range sizes(limit) {
				if c.Mine() && !c.Expired() {
					c.Add("sized", 1)
					f(x[0] + times(x[1], n) + x[2])
				}
			}
		}
	}
}

// sizedErrors are texts of all sizes that are wrong at their end, or behind.
func sizedErrors(c *fw.Ctx, limit int, f func(text string)) {
	for _, l := range [][][3]string{lists, lengths, fillers} {
		for k, x := range l {
			for _, n := range sizes(limit) {
				if !c.Mine() || c.Expired() {
					continue
				}
				t := x[0] + times(x[1], n)
				f(t)
				f(t + " !" + x[2])
				f(t + x[2] + " CREATE")
				if k%3 == 0 {
					f(t + x[2] + "\n) x")
				}
			}
		}
	}
}

// sizedPairs calls f for pairs of schemas of all sizes, which differ in one
// element, or in all of them.
func sizedPairs(c *fw.Ctx, limit int, f func(from, to string)) {
	tab := func(l ...string) string {
		var o []string
		for _, s := range l {
			if s != "" {
				o = append(o, s)
			}
		}
		return "CREATE TABLE t (" + strings.Join(o, ", ") + ")"
	}
	seq := func(f string, lo, hi int) string {
		var o []string
		for i := lo; i <= hi; i++ {
			o = append(o, strings.ReplaceAll(f, "#", strconv.Itoa(i)))
		}
		return strings.Join(o, ", ")
	}
	for _, n := range sizes(limit) {
		if n == 0 || !c.Mine() {
			continue
		}
		var ps [][2]string
		both := func(a, b string) { ps = append(ps, [2]string{a, b}, [2]string{b, a}) }
		// columns: all at once; one at the beginning, within, and at the end
		both(tab("z INT"), tab("z INT", seq("c# INT", 1, n)))
		both(tab("z INT"), tab(seq("c# INT", 1, n), "z INT"))
		both(tab("z INT", "y INT"), tab("z INT", seq("c# INT", 1, n), "y INT"))
		for _, k := range []int{1, n / 2, n - 1, n} {
			if k >= 1 {
				both(tab(seq("c# INT", 1, n)), tab(seq("c# INT", 1, k-1), "x TEXT", seq("c# INT", k, n)))
				both(tab(seq("c# INT", 1, n)), tab(seq("c# INT", 1, k-1), fmt.Sprintf("c%d BIGINT NOT NULL", k), seq("c# INT", k+1, n)))
			}
		}
		both(tab(seq("c# INT", 1, n)), tab(seq("c# TEXT", 1, n)))
		ps = append(ps, [2]string{tab(seq("c# INT", 1, n)), tab(seq("d# INT", 1, n))})
		var odd []string
		for i := 1; i <= n; i += 2 {
			odd = append(odd, fmt.Sprintf("c%d INT", i))
		}
		both(tab(strings.Join(odd, ", ")), tab(seq("c# INT", 1, n)))
		// indexes
		both(tab("a INT", "b INT"), tab("a INT", "b INT", seq("KEY k# (a)", 1, n)))
		both(tab("a INT", "b INT", seq("KEY k# (a)", 1, n)), tab("a INT", "b INT", seq("KEY k# (b)", 1, n)))
		both(tab("a INT", "b INT", seq("KEY k# (a)", 1, n)), tab("a INT", "b INT", seq("KEY k# (a)", 1, n-1), fmt.Sprintf("UNIQUE KEY k%d (a)", n)))
		both(tab("a INT"), tab("a INT", seq("CONSTRAINT f# FOREIGN KEY (a) REFERENCES p# (x)", 1, n)))
		both(tab("a INT", seq("CONSTRAINT f# FOREIGN KEY (a) REFERENCES p# (x)", 1, n)), tab("a INT", seq("CONSTRAINT f# FOREIGN KEY (a) REFERENCES p# (x) ON DELETE CASCADE", 1, n)))
		both(tab(seq("c# INT", 0, n), "KEY k ("+seq("c#", 0, n)+")"), tab(seq("c# INT", 0, n), "KEY k ("+seq("c#", 0, n-1)+")"))
		// tables
		all := strings.ReplaceAll(seq("CREATE TABLE t# (a INT)", 1, n), ", ", ";")
		alter := strings.ReplaceAll(seq("CREATE TABLE t# (a INT| b INT| KEY (b))", 1, n), ", ", ";")
		both("", all)
		ps = append(ps, [2]string{all, strings.ReplaceAll(alter, "|", ",")})
		both(all+";CREATE TABLE x (a INT)", all+";CREATE TABLE x (b INT)")
		both("CREATE TABLE x (a INT);"+all, all)
		// names and values
		long := strings.Repeat("x", n)
		both(tab("a"+long+" INT", "b INT"), tab("a"+long+"y INT", "b INT"))
		both(tab("a"+long+" INT", "b INT"), tab("a"+long+" INT", "x TEXT", "b INT"))
		both("CREATE TABLE a"+long+" (a INT)", "CREATE TABLE a"+long+"y (a INT)")
		both(tab("a INT", "KEY k"+long+" (a)"), tab("a INT", "KEY k"+long+"y (a)"))
		both(tab("a INT", "CONSTRAINT f"+long+" FOREIGN KEY (a) REFERENCES p (x)"), tab("a INT", "CONSTRAINT f"+long+"y FOREIGN KEY (a) REFERENCES p (x)"))
		both(tab("a INT", "CONSTRAINT f FOREIGN KEY (a) REFERENCES p"+long+" (x)"), tab("a INT", "CONSTRAINT f FOREIGN KEY (a) REFERENCES p"+long+"y (x)"))
		both(tab("a TEXT COMMENT '"+long+"'"), tab("a TEXT COMMENT '"+long+"y'"))
		both(tab("a CHAR(3) DEFAULT '"+long+"'"), tab("a CHAR(3) DEFAULT '"+long[1:]+"'"))
		both(tab("a ENUM("+seq("'v#'", 0, n)+")"), tab("a ENUM("+seq("'v#'", 0, n-1)+")"))
		both(tab("a VARCHAR("+strconv.Itoa(n)+")"), tab("a VARCHAR("+strconv.Itoa(n+1)+")"))
		both(tab("a INT DEFAULT "+strconv.Itoa(n)), tab("a INT DEFAULT "+strconv.Itoa(n+1)))
		both(tab("a DECIMAL("+strconv.Itoa(n)+",2)"), tab("a DECIMAL("+strconv.Itoa(n)+",3)"))
		both(tab("a VARCHAR(999)", "KEY k (a("+strconv.Itoa(n)+"))"), tab("a VARCHAR(999)", "KEY k (a("+strconv.Itoa(n+1)+"))"))
		for _, p := range ps {
			if !c.Expired() && valid(p[0]) && valid(p[1]) {
				c.Add("pairs", 1)
				f(p[0], p[1])
			}
		}
	}
}

// judgeLongTable: containers with many elements.
func judgeLongTable(_ *fw.Ctx, payload string) string {
	n, _ := strconv.Atoi(payload)
	t := model.NewTable("t")
	want := ref.Table{Name: "t"}
	for i := 0; i < n; i++ {
		c := ref.Col{Name: "c" + strconv.Itoa(i), Type: "INT", Len: ref.S(strconv.Itoa(i))}
		x := ref.Idx{Kind: "INDEX", Name: ref.S("i" + strconv.Itoa(i)), Cols: []ref.IdxCol{{Name: c.Name}}}
		o := ref.Opt{Key: "MAX_ROWS", Val: strconv.Itoa(i)}
		t.AddColumn(toCol(c)).AddIndex(toIdx(x, t.ID())).AddOption(model.NewTableOption(o.Key, o.Val, false))
		want.Cols, want.Idx, want.Opts = append(want.Cols, c), append(want.Idx, x), append(want.Opts, o)
	}
	if got := ref.CanonTable(t).String(); got != want.String() {
		return fmt.Sprintf("%d columns, indexes, options:\n%s\ninstead of\n%s", n, got, want)
	}
	if v := lookups(t); v != "" {
		return fmt.Sprintf("%d columns: %s", n, v)
	}
	x, y := model.NewIndex(model.IndexKindNormal, "t"), ref.Idx{Kind: "INDEX"}
	r, s := model.NewReference(), ref.Refer{}
	var vals []string
	for i := 0; i < n; i++ {
		k := ref.IdxCol{Name: "c" + strconv.Itoa(i)}
		vals = append(vals, "v"+strconv.Itoa(i))
		x.AddColumns(model.NewIndexColumn(k.Name))
		r.AddColumns(model.NewIndexColumn(k.Name))
		y.Cols, s.Cols = append(y.Cols, k), append(s.Cols, k)
	}
	if a, b := ref.CanonIdx(x).String(), y.String(); a != b {
		return fmt.Sprintf("an index with %d columns: %s instead of %s", n, a, b)
	}
	if a, b := ref.CanonIdx(x.Clone()).String(), y.String(); a != b {
		return fmt.Sprintf("the clone of an index with %d columns: %s instead of %s", n, a, b)
	}
	if a, b := ref.CanonRef(r).String(), s.String(); a != b {
		return fmt.Sprintf("a reference with %d columns: %s instead of %s", n, a, b)
	}
	for _, c := range []model.TableColumn{model.NewTableColumn("a").SetType(model.ColumnTypeEnum).SetEnumValues(vals), model.NewTableColumn("a").SetType(model.ColumnTypeSet).SetSetValues(vals)} {
		for _, d := range []model.TableColumn{c, c.Clone()} {
			if got := ref.CanonCol(d); strings.Join(got.Vals, ",") != strings.Join(vals, ",") {
				return fmt.Sprintf("%d values: %v instead of %v", n, got.Vals, vals)
			}
		}
	}
	var l model.Stmts
	for i := 0; i < n; i++ {
		l = append(l, model.NewTable("t"+strconv.Itoa(i)))
	}
	for i := 0; i < n; i++ {
		if got, ok := l.Lookup("table#t" + strconv.Itoa(i)); !ok || got != l[i] {
			return fmt.Sprintf("Lookup does not find statement %d of %d", i, n)
		}
	}
	return ""
}
