package checks

import (
	"bytes"
	"fmt"
	"sort"
	"strings"

	"github.com/schemalex/schemalex/diff"

	"schemaverif/fw"
	"schemaverif/ref"
)

// C01, C02: the statements of a diff are executed on a simulated catalog.

func diffText(from, to string, opts ...diff.Option) (string, error) {
	var buf bytes.Buffer
	err := diff.Strings(&buf, from, to, opts...)
	return buf.String(), err
}

const pairSep = "\x01"

// outcome of a migration
type outcome struct {
	skip  bool   // not a pair of schemas that a database can have
	out   string // the statements
	err   string // diff failed although it must not
	exec  string // a statement can not be executed
	state string // the result is not the target
}

// mig says what is checked.
type mig struct {
	state   bool // the resulting catalog
	repeats bool // how often the same index without a name is there
	autoinc bool // AUTO_INCREMENT columns are keys at any time
	needed  bool // retained foreign keys have an index at any time
}

func migrate(from, to string, m mig, opts ...diff.Option) (o outcome) {
	fs, bad := ref.Parse(from)
	ts, bad2 := ref.Parse(to)
	if bad != nil || bad2 != nil {
		o.skip = true
		return
	}
	db, err := ref.NewDB(fs)
	target, err2 := ref.NewDB(ts)
	if err != nil || err2 != nil {
		o.skip = true
		return
	}
	if m.autoinc {
		db.AutoInc = true
	}
	if !m.needed { // what is retained need not have its index at all times
		db.Exempt = map[string]bool{}
		for _, t := range target.Tables {
			for _, i := range t.Idx {
				if i.Kind == "FOREIGN" {
					db.Exempt[ref.ExemptKey(t.Name, i)] = true
				}
			}
		}
	}
	text, derr := diffText(from, to, opts...)
	if derr != nil {
		if text != "" {
			o.err = fmt.Sprintf("diff wrote %q, and returned the error %v", text, derr)
		} else if !unnamedDrop(fs, ts) {
			o.err = fmt.Sprintf("diff: %v", derr)
		}
		o.skip = true
		return
	}
	o.out = text
	orig := map[string]*ref.Table{}
	for n, t := range db.Tables {
		orig[n] = t
	}
	if err := db.Exec(text); err != nil {
		o.exec = err.Error()
		return
	}
	if db.Txn || !db.FKC {
		o.exec = "the transaction is not complete"
		return
	}
	if !m.state {
		return
	}
	// the result
	for n := range db.Tables {
		if target.Tables[n] == nil {
			o.state = fmt.Sprintf("table %q is left", n)
			return
		}
	}
	like := false
	for _, t := range ts {
		like = like || t.Like.Ok
	}
	names := make([]string, 0, len(target.Tables))
	for n := range target.Tables {
		names = append(names, n)
	}
	sort.Strings(names)
	for _, n := range names {
		want := target.Tables[n]
		got := db.Tables[n]
		if got == nil {
			o.state = fmt.Sprintf("table %q is missing", n)
			return
		}
		if o.state = sameTable(orig[n], *got, *want, m.repeats); o.state != "" {
			o.state = fmt.Sprintf("table %q: %s", n, o.state)
			return
		}
	}
	result, goal := ref.RenderAll(db.Schema()), ref.RenderAll(target.Schema())
	if again, err := diffText(result, goal); again != "" || err != nil {
		o.state = fmt.Sprintf("there are still differences after the migration: %q, %v", again, err)
		return
	}
	if !like {
		if again, err := diffText(result, to); again != "" || err != nil {
			o.state = fmt.Sprintf("there are still differences to the schema after the migration: %q, %v", again, err)
		}
	}
	return
}

func foldDirs(i ref.Idx) ref.Idx {
	fold := func(l []ref.IdxCol) (o []ref.IdxCol) {
		for _, c := range l {
			if c.Dir == "ASC" {
				c.Dir = ""
			}
			o = append(o, c)
		}
		return o
	}
	i.Cols = fold(i.Cols)
	if i.Ref != nil {
		r := *i.Ref
		r.Cols = fold(r.Cols)
		i.Ref = &r
	}
	return i
}

func foldIdx(l []ref.Idx) []string {
	var o []ref.Idx
	for _, i := range l {
		o = append(o, foldDirs(i))
	}
	return ref.SortedIdx(o)
}

func uniq(sorted []string) (o []string) {
	for i, x := range sorted {
		if i == 0 || x != sorted[i-1] {
			o = append(o, x)
		}
	}
	return o
}

// sameTable compares the result for a table with the target. old is what it was
// before, nil for a new table.
func sameTable(old *ref.Table, got, want ref.Table, repeats bool) string {
	gc, wc := map[string]ref.Col{}, map[string]ref.Col{}
	var gn, wn []string
	for _, c := range got.Cols {
		gc[c.Name] = c
		gn = append(gn, c.Name)
	}
	for _, c := range want.Cols {
		wc[c.Name] = c
		wn = append(wn, c.Name)
	}
	for _, n := range gn {
		if _, ok := wc[n]; !ok {
			return fmt.Sprintf("column %q is left", n)
		}
	}
	for _, n := range wn {
		c, ok := gc[n]
		if !ok {
			return fmt.Sprintf("column %q is missing", n)
		}
		if c.String() != wc[n].String() {
			return fmt.Sprintf("the column is\n%s\ninstead of\n%s", c, wc[n])
		}
	}
	gi, wi := foldIdx(got.Idx), foldIdx(want.Idx)
	if d := uniq(wi); !repeats && (len(d) < len(wi) || old != nil && len(uniq(foldIdx(old.Idx))) < len(old.Idx)) {
		// diff works on sets: how often the same index without a name is declared is a known gap
		gi, wi = uniq(gi), d
	}
	if a, b := strings.Join(gi, "\n"), strings.Join(wi, "\n"); a != b {
		return fmt.Sprintf("the indexes are\n%s\ninstead of\n%s", a, b)
	}
	var oldNames []string
	if old != nil {
		for _, c := range old.Cols {
			if _, ok := wc[c.Name]; ok {
				oldNames = append(oldNames, c.Name)
			}
		}
	}
	had := map[string]bool{}
	for _, n := range oldNames {
		had[n] = true
	}
	var kept []string
	for _, n := range wn {
		if had[n] {
			kept = append(kept, n)
		}
	}
	order := fmt.Sprintf("the columns are in the order %q instead of %q", gn, wn)
	if strings.Join(kept, "\x00") == strings.Join(oldNames, "\x00") {
		if strings.Join(gn, "\x00") != strings.Join(wn, "\x00") {
			return order
		}
		return ""
	}
	pred := func(l []string, n string) string {
		for i := range l {
			if l[i] == n && i > 0 {
				return l[i-1]
			}
		}
		return ""
	}
	for _, n := range wn {
		if !had[n] && pred(gn, n) != pred(wn, n) {
			return order + " (added: " + n + ")"
		}
	}
	return ""
}

// unnamedDrop tells whether an index that has no name has to be dropped.
func unnamedDrop(fs, ts []ref.Table) bool {
	for _, f := range fs {
		for _, t := range ts {
			if t.Name != f.Name {
				continue
			}
			keep := map[string]bool{}
			for _, i := range t.Idx {
				keep[foldDirs(i).String()] = true
			}
			for _, i := range f.Idx {
				if i.Kind != "PRIMARY" && !i.Name.Ok && !i.Sym.Ok && !keep[foldDirs(i).String()] {
					return true
				}
			}
		}
	}
	return false
}

func judgeMigration(m mig) fw.Probe {
	return func(c *fw.Ctx, payload string) string {
		from, to, _ := strings.Cut(payload, pairSep)
		o := migrate(from, to, m)
		what := ""
		switch {
		case o.err != "":
			what = o.err
		case o.exec != "":
			what = o.exec
		case o.state != "" && m.state:
			what = o.state
		default:
			if c != nil && !o.skip {
				c.Add("statements", int64(strings.Count(o.out, ";")))
				c.Add("executed", 1)
			}
			return ""
		}
		return fmt.Sprintf("%s\nfrom: %s\nto:   %s\ndiff: %s", what, from, to, o.out)
	}
}

// ---- the pairs of schemas

// ordered calls f for every sequence of lo to hi different elements.
func ordered(l []string, lo, hi int, f func(s []string)) {
	var rec func(s []string, used int)
	rec = func(s []string, used int) {
		if len(s) >= lo {
			f(append([]string{}, s...))
		}
		if len(s) == hi {
			return
		}
		for i, x := range l {
			if used&(1<<i) == 0 {
				rec(append(s, x), used|1<<i)
			}
		}
	}
	rec(nil, 0)
}

// subsets calls f for every subset with lo to hi elements, in the order of l.
func subsets(l []string, lo, hi int, f func(s []string)) {
	var rec func(s []string, i int)
	rec = func(s []string, i int) {
		if len(s) >= lo {
			f(append([]string{}, s...))
		}
		if len(s) == hi {
			return
		}
		for ; i < len(l); i++ {
			rec(append(s, l[i]), i+1)
		}
	}
	rec(nil, 0)
}

func valid(schema string) bool {
	ts, bad := ref.Parse(schema)
	if bad != nil {
		return false
	}
	_, err := ref.NewDB(ts)
	return err == nil
}

// schemaSet collects schemas that a database can have.
type schemaSet []string

func (s *schemaSet) add(text string) {
	if valid(text) {
		*s = append(*s, text)
	}
}

// index fields of a table with the columns a, b and c
var idxFields = []string{
	"PRIMARY KEY (a)", "PRIMARY KEY (b)", "PRIMARY KEY (a, b)", "PRIMARY KEY USING BTREE (a)", "PRIMARY KEY (a) USING HASH",
	"KEY k (a)", "KEY k (b)", "KEY k (a, b)", "KEY k (b(3))", "KEY k (b(4))", "KEY k (a DESC)", "KEY k (a ASC)", "KEY k (a) USING BTREE", "KEY k (a) USING HASH", "KEY l (a)", "KEY (a)", "KEY (b)", "KEY (a, c)",
	"UNIQUE KEY k (a)", "UNIQUE KEY u (a)", "UNIQUE KEY u (b, a)", "UNIQUE (a)", "CONSTRAINT us UNIQUE (a)", "CONSTRAINT us UNIQUE (b)", "CONSTRAINT us UNIQUE KEY u (b)", "CONSTRAINT `u``s` UNIQUE (a)",
	"FULLTEXT KEY k (b)", "FULLTEXT KEY ft (b)", "FULLTEXT KEY ft (b) WITH PARSER ngram", "FULLTEXT KEY ft (b) WITH PARSER `other p`", "FULLTEXT (b)", "SPATIAL INDEX sp (c)", "SPATIAL INDEX sp (a)", "SPATIAL (c)",
	"CONSTRAINT f FOREIGN KEY (a) REFERENCES p (x)", "CONSTRAINT f FOREIGN KEY (a) REFERENCES p (y)", "CONSTRAINT f FOREIGN KEY (a) REFERENCES q (x)", "CONSTRAINT f FOREIGN KEY (b) REFERENCES p (x)", "CONSTRAINT f FOREIGN KEY (a) REFERENCES p (x) ON DELETE CASCADE", "CONSTRAINT f FOREIGN KEY (a) REFERENCES p (x) ON DELETE CASCADE ON UPDATE SET NULL", "CONSTRAINT f FOREIGN KEY (a) REFERENCES p (x) ON UPDATE NO ACTION", "CONSTRAINT f FOREIGN KEY (a) REFERENCES p (x) MATCH FULL",
	"CONSTRAINT g FOREIGN KEY (a) REFERENCES p (x)", "CONSTRAINT g FOREIGN KEY (a, b) REFERENCES p (x, y)", "CONSTRAINT k FOREIGN KEY (a) REFERENCES p (x)", "CONSTRAINT f FOREIGN KEY n (a) REFERENCES p (x)", "FOREIGN KEY n (a) REFERENCES p (x)", "FOREIGN KEY n (c) REFERENCES p (x)", "FOREIGN KEY (c) REFERENCES p (x)", "FOREIGN KEY (a) REFERENCES p (x)", "KEY f (a)", "KEY f (a, b)", "KEY f (b)", "KEY g (a)",
}

var idxFieldsCore = []string{"PRIMARY KEY (a)", "PRIMARY KEY (b)", "KEY k (a)", "KEY k (b)", "KEY k (a DESC)", "KEY l (a, b)", "KEY (a)", "UNIQUE KEY k (a)", "UNIQUE KEY u (b)", "CONSTRAINT us UNIQUE (a)", "FULLTEXT KEY ft (b)", "FULLTEXT KEY ft (b) WITH PARSER ngram",
	"CONSTRAINT f FOREIGN KEY (a) REFERENCES p (x)", "CONSTRAINT f FOREIGN KEY (a) REFERENCES p (x) ON DELETE CASCADE", "CONSTRAINT g FOREIGN KEY (a) REFERENCES p (x)", "CONSTRAINT g FOREIGN KEY (b) REFERENCES p (x)", "FOREIGN KEY n (a) REFERENCES p (x)", "KEY f (a)", "KEY f (a, b)"}

// column definitions
func colDefs() (o []string) {
	for _, t := range catTypes {
		o = append(o, t)
	}
	for _, t := range []string{"INT", "VARCHAR(20)", "TIMESTAMP", "ENUM('p','q')"} {
		for _, a := range catAttrs {
			if a == "KEY" {
				continue
			}
			d := t + " " + a
			if _, bad := ref.Parse("CREATE TABLE t (a " + d + ")"); bad == nil {
				o = append(o, d)
			}
		}
	}
	o = append(o, "ENUM('p')", "ENUM('q','p')", "ENUM('p','q','r')", "ENUM('p,q')", "SET('p','q')", "SET('')", "VARCHAR(21)", "DECIMAL(6,3)", "TEXT COMMENT 'a'", "TEXT COMMENT 'b'", "INT DEFAULT 1", "INT DEFAULT 2", "INT DEFAULT '1'", "INT NOT NULL DEFAULT '1' COMMENT 'x' UNIQUE", "BOOL DEFAULT TRUE", "CHAR(3) CHARACTER SET latin1 COLLATE latin1_bin", "CHAR(3) CHARACTER SET latin1", "TEXT COMMENT 'it''s \\\\ \"x\"'", "VARCHAR(5) DEFAULT 'NULL'", "VARCHAR(5) DEFAULT NULL", "INT UNSIGNED ZEROFILL", "INT PRIMARY KEY UNIQUE KEY", "BIGINT(19)", "TIMESTAMP DEFAULT CURRENT_TIMESTAMP ON UPDATE CURRENT_TIMESTAMP", "TIMESTAMP NULL DEFAULT CURRENT_TIMESTAMP")
	return o
}

// diffPairs enumerates the pairs.
func diffPairs(c *fw.Ctx, f func(from, to string)) {
	all := func(name string, from, to schemaSet) {
		c.Const("schemas_"+name, int64(len(to)))
		for _, a := range from {
			if !c.Mine() {
				continue
			}
			for _, b := range to {
				if c.Expired() {
					return
				}
				c.Add("pairs", 1)
				f(a, b)
			}
		}
	}
	// columns: names, order
	var s schemaSet
	names := []string{"`b` INT", "a TEXT", "`c``` CHAR(3)", "`d e` INT NOT NULL"}
	if c.Thorough {
		names = append(names, "`KEY` DATE")
	}
	ordered(names, 1, len(names), func(l []string) { s.add("CREATE TABLE t (" + strings.Join(l, ", ") + ")") })
	all("columns", s, s)
	// longer lists, where only a few columns change
	long := []string{"c1 INT", "c2 INT", "c10 INT", "B INT", "z INT", "c3 INT", "x INT"}
	s = nil
	subsets(long, 1, 7, func(l []string) { s.add("CREATE TABLE t (" + strings.Join(l, ", ") + ")") })
	all("subsets", s, s)
	// column definitions
	s = nil
	for _, d := range colDefs() {
		s.add("CREATE TABLE t (a " + d + ", z INT)")
	}
	s.add("CREATE TABLE t (z INT)")
	s.add("")
	all("definitions", s, s)
	// indexes
	pre := "CREATE TABLE t (a INT NOT NULL, b VARCHAR(10) NOT NULL, c GEOMETRY NOT NULL"
	one, two, core, big := schemaSet{}, schemaSet{}, schemaSet{}, schemaSet{}
	pref := func(l []string) string {
		if len(l) == 0 {
			return pre + ")"
		}
		return pre + ", " + strings.Join(l, ", ") + ")"
	}
	subsets(idxFields, 0, 1, func(l []string) { one.add(pref(l)) })
	subsets(idxFields, 2, 2, func(l []string) { two.add(pref(l)) })
	subsets(idxFieldsCore, 0, 2, func(l []string) { core.add(pref(l)) })
	all("one_index", one, one)
	all("two_to_one_index", two, one)
	all("one_to_two_indexes", one, two)
	all("two_indexes", core, core)
	if c.Thorough {
		subsets(idxFieldsCore, 3, 3, func(l []string) { big.add(pref(l)) })
		all("many_indexes", two, two)
		all("three_indexes", big, big)
	}
	// the order of the indexes
	s = nil
	ordered([]string{"PRIMARY KEY (a)", "KEY k (a)", "CONSTRAINT f FOREIGN KEY (a) REFERENCES p (x)", "KEY (b)"}, 1, 4, func(l []string) { s.add(pref(l)) })
	all("index_order", s, s)
	// columns and indexes together
	s = nil
	ordered([]string{"a INT NOT NULL", "b VARCHAR(9)", "c TEXT"}, 1, 3, func(l []string) {
		subsets([]string{"PRIMARY KEY (a)", "PRIMARY KEY (b)", "KEY k (a)", "KEY k (b)", "KEY k (c(4))", "UNIQUE KEY u (b, a)", "CONSTRAINT f FOREIGN KEY (a) REFERENCES p (x)", "CONSTRAINT f FOREIGN KEY (b) REFERENCES p (x)", "KEY (b)", "FULLTEXT KEY ft (c)"}, 0, 2, func(m []string) {
			s.add("CREATE TABLE t (" + strings.Join(append(l, m...), ", ") + ")")
		})
	})
	all("columns_and_indexes", s, s)
	// inline keys
	s = nil
	for _, a := range []string{"INT", "INT PRIMARY KEY", "INT UNIQUE", "INT NOT NULL", "INT UNIQUE PRIMARY KEY"} {
		for _, b := range []string{"", "b INT", "b INT UNIQUE KEY", "b INT PRIMARY KEY COMMENT 'x'"} {
			for _, x := range []string{"", "KEY a (a)", "CONSTRAINT a FOREIGN KEY (a) REFERENCES p (x)", "PRIMARY KEY (a)", "UNIQUE KEY a (a)", "UNIQUE b (a)"} {
				t := "CREATE TABLE t (a " + a
				for _, y := range []string{b, x} {
					if y != "" {
						t += ", " + y
					}
				}
				s.add(t + ")")
			}
		}
	}
	all("inline", s, s)
	// tables: sets, orders, foreign keys, copies
	tables := [][]string{
		{"", "CREATE TABLE p (x INT PRIMARY KEY)", "CREATE TABLE p (x INT, y INT, KEY k (y))"},
		{"", "CREATE TABLE `q``` (a INT, CONSTRAINT f FOREIGN KEY (a) REFERENCES p (x))", "CREATE TABLE `q``` (a INT, b INT)"},
		{"", "CREATE TABLE r LIKE p", "CREATE TABLE o (z INT)"},
		{"", "CREATE TABLE s LIKE `q```"},
		{"", "CREATE TABLE u LIKE r"},
	}
	from, to := schemaSet{}, schemaSet{}
	var pick func(i int, l []string)
	pick = func(i int, l []string) {
		if i == len(tables) {
			from.add(strings.Join(l, "; "))
			ordered(l, len(l), len(l), func(l []string) { to.add(strings.Join(l, ";\n") + ";") })
			return
		}
		for _, v := range tables[i] {
			if v == "" {
				pick(i+1, l)
			} else {
				pick(i+1, append(l[:len(l):len(l)], v))
			}
		}
	}
	pick(0, nil)
	c.Const("schemas_tables", int64(len(to)))
	for _, a := range from {
		if !c.Mine() {
			continue
		}
		for _, b := range to {
			if !c.Expired() && likeUnchanged(a, b) {
				c.Add("pairs", 1)
				f(a, b)
			}
		}
	}
	// several tables that change
	s = nil
	vars := []string{"", " (a INT)", " (b INT, a TEXT, KEY k (b))", " (a INT NOT NULL PRIMARY KEY, c INT, CONSTRAINT f%s FOREIGN KEY (c) REFERENCES p (x))"}
	var multi func(i int, l []string)
	multi = func(i int, l []string) {
		if i == 3 {
			s.add(strings.Join(l, ";"))
			return
		}
		for _, v := range vars {
			if v == "" {
				multi(i+1, l)
			} else {
				n := []string{"`t t`", "a", "`C`"}[i]
				multi(i+1, append(l[:len(l):len(l)], "CREATE TABLE "+n+strings.ReplaceAll(v, "%s", fmt.Sprint(i))))
			}
		}
	}
	multi(0, nil)
	all("several_tables", s, s)
	// names that need quoting, everywhere
	s = nil
	for _, n := range []string{"`a``b`", "`c d`", "`KEY`", "`é`", "`'`", "`\"`", "`\\`", "`;`", "`#`", "`-- `", "`/*`", "x_1"} {
		s.add("CREATE TABLE " + n + " (z INT, " + n + " ENUM('" + strings.NewReplacer("`", "", "'", "''", "\\", "\\\\").Replace(n) + "') COMMENT \"" + strings.NewReplacer("`", "", "\"", "\"\"", "\\", "\\\\").Replace(n) + "\", KEY " + n + " (" + n + "), CONSTRAINT " + n + " FOREIGN KEY (" + n + ") REFERENCES " + n + " (" + n + "))")
		s.add("CREATE TABLE t (z INT, " + n + " INT CHARACTER SET " + n + " COLLATE " + n + ", UNIQUE KEY " + n + " (z, " + n + "), FULLTEXT ft (" + n + ") WITH PARSER " + n + ")")
		s.add("CREATE TABLE t (" + n + " TEXT, z INT, CONSTRAINT " + n + " UNIQUE (z))")
	}
	all("names", s, s)
	// everything that can be declared in a table
	for _, a := range catFields {
		for _, b := range catFields {
			if !c.Mine() {
				continue
			}
			base := "CREATE TABLE t (a INT, b TEXT, c INT, `a b` INT"
			if strings.Contains("abc`", a[:1]) && strings.Contains(a[:4], " ") {
				continue
			}
			x, y := base+", "+a+")", base+", "+b+")"
			z := base + ", " + a + ", " + b + ")"
			for _, p := range [][2]string{{x, y}, {x, z}, {z, y}, {"", z}, {z, ""}} {
				if c.Expired() || !valid(p[0]) || !valid(p[1]) {
					continue
				}
				c.Add("pairs", 1)
				f(p[0], p[1])
			}
		}
	}
	for _, t := range catTypes {
		for _, a := range catAttrs {
			if !c.Mine() {
				continue
			}
			x, y := "CREATE TABLE t (z INT)", "CREATE TABLE t (z INT, a "+t+" "+a+", y INT)"
			if !valid(y) {
				continue
			}
			for _, p := range [][2]string{{x, y}, {y, x}, {"", y}, {"CREATE TABLE t (a INT)", y}} {
				if !c.Expired() {
					c.Add("pairs", 1)
					f(p[0], p[1])
				}
			}
		}
	}
	limit := 513
	if c.Thorough {
		limit = 2049
	}
	sizedPairs(c, limit, f)
	valuePairs(c, f)
	// new tables with options, and whatever else a statement can say
	for _, a := range catOptions {
		for _, b := range catOptions {
			if c.Mine() && !c.Expired() {
				c.Add("pairs", 1)
				f("CREATE TABLE u (a INT)", "CREATE TABLE t (a INT) "+a+" "+b)
			}
		}
	}
	for _, a := range catStmts {
		for _, b := range catStmts {
			if c.Mine() && !c.Expired() && valid(a) && valid(b) && likeUnchanged(a, b) {
				c.Add("pairs", 1)
				f(a, b)
			}
		}
	}
}

// likeUnchanged excludes what diff does not do: a table that is declared as a
// copy in one of the schemas is not altered.
func likeUnchanged(from, to string) bool {
	fs, _ := ref.Parse(from)
	ts, _ := ref.Parse(to)
	get := func(l []ref.Table, n string) *ref.Table {
		for i := range l {
			if l[i].Name == n {
				return &l[i]
			}
		}
		return nil
	}
	var same func(n string) bool
	same = func(n string) bool {
		a, b := get(fs, n), get(ts, n)
		if a == nil || b == nil || a.String() != b.String() {
			return false
		}
		return !a.Like.Ok || same(a.Like.S)
	}
	for _, t := range ts {
		if f := get(fs, t.Name); f != nil && (f.Like.Ok || t.Like.Ok) && !same(t.Name) {
			return false
		}
	}
	return true
}

func init() {
	level := func(m *fw.Merged, cov map[string]interface{}) {
		cov["states"] = m.Counts["executed"]
		cov["transitions"] = m.Counts["statements"]
		cov["traces_validated_against_impl"] = m.Counts["evaluations"]
	}
	rule := "All pairs of schemas of several families (schemas_*): columns in all orders, all column definitions, all sets of one and two indexes, columns with indexes, inline keys, sets and orders of tables with foreign keys and copies, several tables at once, names that need quoting, all fragments of the catalogs, and lists, names and values of all sizes up to 69 and around the powers of two and ten up to 513 (thorough: 2049). The real diff is generated for each pair and executed statement by statement on a catalog simulator."
	assume := []string{"the simulator (mc/ref/sim.go) states what MySQL does with the DDL statements in question", "foreign keys are not checked against the referenced table (diff turns the checks off)"}
	fw.Register(&fw.Check{ID: "C01", Level: "model_checking", Rule: rule + " C01 compares the resulting catalog with the target, and requires that a second diff is empty.", Assumptions: assume, Leveled: level,
		Probes: map[string]fw.Probe{"pair": judgeMigration(mig{state: true}), "repeats": judgeMigration(mig{state: true, repeats: true})},
		Explore: func(c *fw.Ctx) {
			diffPairs(c, func(a, b string) {
				c.Run("pair", a+pairSep+b)
				if c.Worker == 0 {
					c.Sample(a + " => " + b)
				}
			})
		}})
	fw.Register(&fw.Check{ID: "C02", Level: "model_checking", Rule: rule + " C02 requires that every statement can be executed when its turn comes.", Assumptions: assume, Leveled: level,
		Probes: map[string]fw.Probe{"pair": judgeMigration(mig{}), "autoinc": judgeMigration(mig{autoinc: true}), "needed": judgeMigration(mig{needed: true})},
		Explore: func(c *fw.Ctx) {
			diffPairs(c, func(a, b string) {
				c.Run("pair", a+pairSep+b)
				if c.Worker == 0 {
					c.Sample(a + " => " + b)
				}
			})
		}})
}
